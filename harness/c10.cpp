// C10: documents generated from a reference tree, rendered in many YAML styles, and read back
#define VP_MAIN
#include "yaml_ref.hpp"
void vp_init (int&, char**&) { if (freopen("/dev/null","w",stdout)) {} }
void vp_fini () {}
// --- classification of the text of a plain scalar, written from the documented order bool, int, double, string
static bool ci_eq (const std::string& a, const char* b) { std::string s; for (char ch:a) s+=(char)tolower((unsigned char)ch); return s==b; }
static bool as_int (const std::string& s, int& v) {
  size_t i=0; bool neg=false; if (i<s.size() && s[i]=='-') { neg=true; ++i; } if (i==s.size()) return false;
  __int128 a=0; for (;i<s.size();++i) { if (s[i]<'0'||s[i]>'9') return false; a=a*10+(s[i]-'0'); if (a>((__int128)1<<100)) a=(__int128)1<<100; }
  if (neg) a=-a; if (a<INT_MIN || a>INT_MAX) return false; v=(int)a; return true;
}
static bool as_double (const std::string& s, double& v) {
  size_t i=0; auto digits=[&]{ size_t n=0; while (i<s.size() && s[i]>='0' && s[i]<='9') { ++i; ++n; } return n; };
  if (i<s.size() && (s[i]=='+'||s[i]=='-')) ++i;
  size_t n=digits(); if (i<s.size() && s[i]=='.') { ++i; n+=digits(); } if (!n) return false;
  if (i<s.size() && (s[i]=='e'||s[i]=='E')) { ++i; if (i<s.size() && (s[i]=='+'||s[i]=='-')) ++i; if (!digits()) return false; }
  if (i!=s.size()) return false;
  v=strtod(s.c_str(),nullptr); return std::isfinite(v);
}
static YV classify (const std::string& s) {
  if (ci_eq(s,"true")) return YV(true); if (ci_eq(s,"false")) return YV(false);
  int i; if (as_int(s,i)) return YV(i); double d; if (as_double(s,d)) return YV(d); return YV(s);
}
// --- text of plain scalars
static std::string mixcase (vp::Case& c, std::string s) { for (auto& ch:s) if (c.b()) ch=(char)toupper(ch); return s; }
static std::string digits (vp::Case& c, int lo, int hi) { return c.str("0123456789",lo,hi); }
static std::string plain (vp::Case& c) {
  std::string s;
  switch (c.weighted({4,3,4,3,3,2,3})) {
    case 0: s = c.str("abcXYZ_",1,8); if (c.chance(1,4)) s+=" "+c.str("abz09.-",1,5)+"z"; break;
    case 1: s = mixcase(c,c.pick<const char*>({"true","false"})); if (c.chance(1,6)) s+=c.pick<const char*>({"s","1","."," x"}); break;
    case 2: s = (c.chance(1,3)?"-":"")+digits(c,1,c.b()?4:12); break;
    case 3: s = c.pick<const char*>({"2147483647","2147483648","-2147483648","-2147483649","4294967296","9223372036854775808","00","007","-0","99999999999999999999999","1e308","1.8e308","-1e309","4.9e-324","1e-320","2.2250738585072014e-308","1e-400","0e999","0x10","inf","nan","1e","1e+","1.5.2",".5","5.","-.5","+5","+.5e1","--5","-+5","1_000","1e5x","e5","..","0b1","0o7","1,","12e03","infinity","1d0","1f","-x"}); break;
    case 4: s = (c.chance(1,3)?c.pick<const char*>({"-","+"}):"")+digits(c,0,5)+"."+digits(c,0,6); break;
    case 5: s = (c.chance(1,3)?c.pick<const char*>({"-","+"}):"")+digits(c,1,4)+(c.b()?"."+digits(c,0,9):"")+(c.b()?"e":"E")+c.pick<const char*>({"","-","+"})+digits(c,1,3); break;
    default: s = c.str("0123456789+-.eE_xa",1,7); break;
  }
  // keep it a valid plain scalar in every context
  if (s=="-" || s=="." || s=="+" || s.find(',')!=std::string::npos || s=="--" || s=="---" || s=="...") s="q"+s;
  if (s.find(',')!=std::string::npos) s="q";
  return s;
}
static std::string quoted (vp::Case& c, const std::string& s, std::ostringstream& o) { // writes s quoted
  bool single = s.find_first_of("\n\t\x01")==std::string::npos && c.b();
  if (single) { o << '\''; for (char ch:s) { if (ch=='\'') o << '\''; o << ch; } o << '\''; }
  else { o << '"'; for (char ch:s) { if (ch=='"'||ch=='\\') o << '\\' << ch; else if (ch=='\n') o << "\\n"; else if (ch=='\t') o << "\\t"; else if (ch=='\x01') o << "\\x01"; else o << ch; } o << '"'; }
  return s;
}
static std::string anytext (vp::Case& c) { return c.b() ? plain(c) : c.str("ab 1.:#,[]{}'\"\\-&*!|>%@`~?\n\t\x01",0,10); }
struct Doc { std::ostringstream o; bool error=false, typed_edge=false, tagged=false; int nulls=0, seqs=0; };
// writes one scalar and returns its value; in sequences tags are limited to !!str
static bool scalar (vp::Case& c, Doc& d, YV& v, bool in_seq) {
  switch (c.weighted({10,4,in_seq?1:4,in_seq?0:1})) {
    case 1: v=YV(quoted(c,anytext(c),d.o)); return true;
    case 2: {
      int t = in_seq ? 3 : (int)c.below(4); static const char* sh[]={"!!bool","!!int","!!float","!!str"}; static const char* lo[]={"!<tag:yaml.org,2002:bool>","!<tag:yaml.org,2002:int>","!<tag:yaml.org,2002:float>","!<tag:yaml.org,2002:str>"};
      d.o << (c.chance(1,3)?lo[t]:sh[t]) << ' '; std::string s=plain(c); if (c.b()) d.o << s; else quoted(c,s,d.o);
      d.tagged=true; YV w=classify(s); int i; double x;
      if (t==0) { if (w.index()!=0) d.error=true; else v=w; }
      else if (t==1) { if (!as_int(s,i)) d.error=true; else v=YV(i); }
      else if (t==2) { if (!as_double(s,x)) d.error=true; else v=YV(x); }
      else v=YV(s);
      return true; }
    case 3: if (in_seq) { d.o << "x"; v=YV(std::string("x")); return true; }
      d.o << c.pick<const char*>({"~","null","","NULL"}); ++d.nulls; return false;
    default: { auto s=plain(c); d.o << s; v=classify(s); if (v.index()!=3) d.typed_edge |= s.find_first_of("eE.+")!=std::string::npos || s.size()>8; return true; }
  }
}
static YV combine (const std::vector<std::pair<std::string,YV>>& e) { // (text, own value) of the entries
  if (e.empty()) return YV(ES());
  auto all=[&](auto f){ for (auto& x:e) if (!f(x)) return false; return true; };
  bool strings=false; for (auto& x:e) strings |= x.first=="\"";  // marks a quoted or tagged entry
  if (!strings && all([](auto& x){ return x.second.index()==0; })) { std::vector<char> r; for (auto& x:e) r.push_back(std::get<0>(x.second)); return YV(r); }
  if (!strings && all([](auto& x){ return x.second.index()==1; })) { std::vector<int> r; for (auto& x:e) r.push_back(std::get<1>(x.second)); return YV(r); }
  if (!strings && all([](auto& x){ return x.second.index()==1||x.second.index()==2; })) { std::vector<double> r; for (auto& x:e) { double v; as_double(x.first,v); r.push_back(v); } return YV(r); }
  std::vector<std::string> r; for (auto& x:e) r.push_back(x.first=="\"" ? std::get<3>(x.second) : x.first); return YV(r);
}
static YV sequence (vp::Case& c, Doc& d, bool flow, int ind) {
  ++d.seqs; std::vector<std::pair<std::string,YV>> e; int n=c.size(0,7); if (n==0) flow=true;
  int kind=(int)c.weighted({3,3,3,3,2}); // free, ints, doubles, bools, anything
  if (flow) d.o << '['; else d.o << '\n';
  for (int i=0;i<n;++i) {
    if (flow) { if (i) d.o << (c.b()?", ":","); } else d.o << std::string(ind,' ') << "- ";
    YV v; std::string text;
    if (kind==0 || kind==4 || c.chance(1,12)) {
      auto b=d.o.str().size(); scalar(c,d,v,true); text=d.o.str().substr(b); if (v.index()==3 && (text[0]=='"'||text[0]=='\''||text[0]=='!')) text="\"";
      if (text!="\"" && v.index()==3) text=std::get<3>(v);
    } else {
      if (kind==1) text=(c.chance(1,4)?"-":"")+digits(c,1,c.chance(1,10)?11:5);
      else if (kind==2) text=(c.chance(1,4)?"-":"")+digits(c,1,4)+"."+digits(c,1,4)+(c.chance(1,4)?"e"+std::to_string(c.range(-300,300)):"");
      else text=mixcase(c,c.pick<const char*>({"true","false"}));
      v=classify(text); const char* tag[3][2]={{"!!bool ","!<tag:yaml.org,2002:bool> "},{"!!int ","!<tag:yaml.org,2002:int> "},{"!!float ","!<tag:yaml.org,2002:float> "}};
      if (v.index()<3 && c.chance(1,10)) { d.o << tag[v.index()][c.chance(1,3)]; d.tagged=true; } // a tag that says what the entry is anyway
      d.o << text;
    }
    e.push_back({text,v}); if (!flow) d.o << '\n';
  }
  if (flow) d.o << (n && c.chance(1,8)?" ]":"]");
  return combine(e);
}
static std::string key (vp::Case& c, std::set<std::string>& used, std::ostringstream& o) {
  std::string k; bool q=false;
  for (int t=0;;++t) { k = t>20 ? "k"+std::to_string(used.size()) : c.chance(1,6) ? (q=true,anytext(c)) : c.chance(1,6) ? (q=false,plain(c)) : (q=false,c.str("abcdK",1,3)+(c.chance(1,6)?" "+c.str("xyz",1,3):"")); if (t>20) q=false;
    if (k.empty() || k=="~" || ci_eq(k,"null") || k=="<<") continue; if (used.insert(k).second) break; }
  if (q) quoted(c,k,o); else o << k;
  return k;
}
static void comment (vp::Case& c, Doc& d) { if (c.chance(1,12)) d.o << " # " << c.str("ab: '\"[1",0,8); }
static void map (vp::Case& c, Doc& d, Tree& t, int depth, int ind, bool flow) {
  int n=c.size(flow||depth<3?0:1,7); std::set<std::string> used;
  if (n==0) flow=true;
  if (flow) d.o << '{'; else if (ind) d.o << '\n';
  for (int i=0;i<n;++i) {
    if (flow) { if (i) d.o << ", "; } else d.o << std::string(ind,' ');
    auto k=key(c,used,d.o); d.o << ": ";
    int kind = (int)c.weighted({6,3,depth>0?3:0}); if (depth<=0 && kind==2) kind=0; int step=c.irange(1,4);
    bool ended=false;
    if (kind==2) { bool fl=flow||c.chance(1,4); auto& sub=t.s[k]; auto before=d.o.str().size(); map(c,d,sub,depth-1,ind+step,fl); ended = d.o.str().size()>before && d.o.str().back()=='\n'; }
    else if (kind==1) { bool fl=flow||c.b(); t.p[k]=sequence(c,d,fl,ind+step); ended=d.o.str().back()=='\n'; }
    else { YV v; if (scalar(c,d,v,false)) t.p[k]=v; }
    if (!flow && !ended) { comment(c,d); d.o << '\n'; }
  }
  if (flow) d.o << '}';
}
VP_PROP(documents, 120000, 3000000, "documents with nested mappings (block and flow style), scalars of every spelling (plain, quoted, tagged, null) and sequences, read into an empty list or one with other contents; non-trivial: a number with sign, point, exponent or many digits, a tag, or a sequence occurs") {
  static const std::string f=tmpfile("c10-");
  Doc d; Tree t; if (c.chance(1,4)) d.o << "%YAML 1.2\n"; if (d.o.str().size() || c.chance(1,4)) d.o << "---\n"; if (c.chance(1,10)) d.o << "# comment\n";
  map(c,d,t,c.chance(1,4)?0:3,0,c.chance(1,6)); d.o << "\n"; if (c.chance(1,5)) d.o << "...\n";
  auto text=d.o.str(); c.d << text; spit(f,text);
  if (d.error) {
    PL p("p"); p.set<int>("k",1); std::string w;
    VP_CHECK(vp::throws([&]{ ekat::parse_yaml_file(f,p); },&w),"a tag contradicting its value is accepted");
    c.label("contradicting tag"); c.nontrivial(); return;
  }
  switch (c.below(3)) {
    case 0: { auto p=ekat::parse_yaml_file(f); check_tree(p,t,"",true); break; }
    case 1: { PL p("some name"); ekat::parse_yaml_file(f,p); check_tree(p,t,"",true); break; }
    default: { PL p("q"); if (c.b()) p.set<int>("a",-77); if (c.b()) p.set<std::string>("zz","old"); if (c.b()) p.sublist("b").set<double>("a",5.5); if (c.b()) p.sublist("old").sublist("old");
      if (c.b()) { std::ostringstream o2; spit(f+"2","a: [1, 2]\nbb: {a: 1, b: 2}\n"); ekat::parse_yaml_file(f+"2",p); }
      ekat::parse_yaml_file(f,p); check_tree(p,t,"",true); c.label("list not empty before"); }
  }
  c.nontrivial(d.typed_edge || d.tagged || d.seqs>0); c.label("null",d.nulls>0); c.label("sublists",!t.s.empty()); c.label("tag",d.tagged); c.label("edge number",d.typed_edge); c.label("sequence",d.seqs>0);
}
VP_PROP(scalars, 400000, 6000000, "one scalar of any spelling, read under one key; non-trivial: it is a number or looks like one") {
  static const std::string f=tmpfile("c10s-");
  auto s=plain(c); c.d << s; spit(f,"k: "+s+"\nl: ["+s+"]\n"); auto p=ekat::parse_yaml_file(f); Tree t; t.p["k"]=classify(s); t.p["l"]=combine({{s,classify(s)}});
  check_tree(p,t,"",true); c.nontrivial(t.p["k"].index()!=3 || s.find_first_of("0123456789")!=std::string::npos); c.label(yname[t.p["k"].index()]);
}
VP_PROP(missing_files, 50, 500, "reading files that do not exist, are empty or hold no mapping throws and leaves the list alone; non-trivial: all") {
  static const std::string f=tmpfile("c10m-"); PL p("x"); p.set<int>("a",3); Tree t; t.p["a"]=YV(3);
  int k=(int)c.below(4); c.d << k; std::string file=f;
  if (k==0) file=f+".missing"; else spit(f,k==1?"":k==2?"[1, 2]\n":"just text\n");
  VP_CHECK(vp::throws([&]{ ekat::parse_yaml_file(file,p); }),"no exception"); check_tree(p,t,"",true); c.nontrivial();
}
