// C11: arbitrary bytes read as YAML: normal return or standard exception, no memory error, no leak, no hang
#define VP_MAIN
#include "yaml_ref.hpp"
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes ();
#endif
void vp_init (int&, char**&) { if (freopen("/dev/null","w",stdout)) {} }
void vp_fini () {}
static const std::vector<std::string> tokens { "a: ","b: ","- ","\n","\n  ","\n    ","[","]","{","}",", ",":"," ","1","-","--5","2147483648","-2147483649","99999999999999999999","1e400","1e-320","1e","-0.5","true","FALSE","\"","'","!!int ","!!bool ","!!float ","!!str ","! ","!<tag:yaml.org,2002:int> ","!foo ","&x ","*x","&y ","*y","<<: ","? ","| ","|\n","> ","|-\n   ","#","%YAML 1.2\n","%TAG ! x\n","---\n","...\n","~","null","\\","\\x41","\\u00e9","\\U0001F600","\t","\r\n","\xef\xbb\xbf","\xff\xfe","\xc3\xa9","\xc3","@","`","%","nan",".inf","0x1F","x","key with blanks: ","\"q\": ","[]","{}","[1, 2]","[a, b]","[[1], 2]","{a: 1}","!!seq ","!!map " };
static const std::vector<std::string> docs {
  "a: 1\nb: 2.5\nc: true\nd: text\n", "%YAML 1.1\n---\nints: [1,2]\nempty: []\nC:\n  One Double: 9.8\n  Three: [1.024e3, .1 , -1.0E-2]\n  L: [TRUE, false]\n  S: multiple words string\n  N:\n    A: 42\nO:\n  B: !!bool \"false\"\n  I: -2\n  S: \"blah\"\n...\n",
  "a:\n  - 1\n  - 2\nb:\n  - x\n  - \"y\"\nc: {d: [1.5, 2], e: {f: g}}\n", "a: |\n  line 1\n   line 2\nb: >\n  folded\n  text\nc: 'it''s'\nd: \"esc \\n \\x41\"\n",
  "a: &x [1, 2]\nb: *x\nc: &y {k: 1}\nd: *y\n", "a: !!int 5\nb: !!float 5\nc: !!str 5\nd: !!bool true\ne: !<tag:yaml.org,2002:int> 7\n", "? a\n: b\n? [c]\n: d\n", "a: &x {b: *x}\n", "a:\nb: ~\nc: [~, null]\n", "- 1\n- 2\n", "text", "" };
static std::string number (vp::Case& c) {
  switch (c.below(4)) { case 0: return std::to_string((long long)c.range(INT_MIN,INT_MAX)+c.range(-3,3)*(1ll<<31)); case 1: return c.pick<const char*>({"2147483647","2147483648","-2147483648","-2147483649","4294967295","9223372036854775807","9223372036854775808","-9223372036854775809","18446744073709551616"});
    case 2: return std::to_string(c.range(0,9))+"."+std::to_string(c.range(0,99999))+"e"+std::to_string(c.range(-400,400)); default: return c.str("0123456789+-.eE",1,24); }
}
static std::string text (vp::Case& c) {
  std::string s; int aliases=0;
  auto tok=[&]{ auto& t=c.pick(tokens); if (t[0]=='*' && ++aliases>6) return std::string("z"); return t; };
  switch (c.weighted({4,5,3,2,1})) {
    case 0: { int n=c.size(0,40); for (int i=0;i<n;++i) s+=tok(); break; }
    case 1: { s=c.pick(docs); int n=c.size(1,8);
      for (int i=0;i<n;++i) { size_t p=c.below(s.size()+1);
        switch (c.below(7)) { case 0: s.insert(p,tok()); break; case 1: s.insert(p,1,(char)c.below(256)); break; case 2: s.erase(p,c.size(1,6)); break; case 3: if (p<s.size()) s[p]=(char)c.below(256); break; case 4: s.resize(p); break; case 5: s.insert(p,number(c)); break;
          default: { size_t q=c.below(s.size()+1); if (p>q) std::swap(p,q); auto piece=s.substr(p,std::min<size_t>(q-p,60)); if (std::count(piece.begin(),piece.end(),'*')+aliases<6) { aliases+=std::count(piece.begin(),piece.end(),'*'); s.insert(c.below(s.size()+1),piece); } } } }
      break; }
    case 2: { int n=c.size(1,6); for (int i=0;i<n;++i) { s+="k"+std::to_string(i)+": "; bool q=c.b(); int t=(int)c.below(6); static const char* tg[]={"","!!int ","!!float ","!!bool ","!!str ",""}; s+=tg[t]; if (t==5) s+="["+number(c)+", "+number(c)+"]"; else s+=q?"\""+number(c)+"\"":number(c); s+="\n"; } break; }
    case 3: { int n=c.size(0,60); for (int i=0;i<n;++i) s+=(char)c.below(256); break; }
    default: { int n=c.size(1,1500); const char* u=c.pick<const char*>({"[","{a: ","- ","? ","!","&a ","\"","a:\n","[{","'","(", ": "}); for (int i=0;i<n;++i) s+=u; if (c.b()) { const char* e=c.pick<const char*>({"]","}","\n","1","}]"}); for (int i=0;i<n;++i) s+=e; }
      if (c.b()) { s.clear(); n=std::min(n,700); for (int i=0;i<n;++i) s+=std::string(i,' ')+"a:\n"; } break; }
  }
  return s;
}
static void walk (const PL& l, int& n) { for (auto& x:l.param_names()) { ++n; (void)actual(l,x); } for (auto& x:l.sublist_names()) { ++n; walk(l.sublist(x),n); } }
// reads, uses what was read; returns whether it was accepted
static bool once (const std::string& f, const std::string& g, int& n, std::string& why) {
  PL p("x"); n=0;
  try { ekat::parse_yaml_file(f,p); } catch (const std::exception& e) { why=e.what(); return false; }
  walk(p,n); std::ostringstream o; p.print(o);
  ekat::write_yaml_file(g,p);
  return true;
}
VP_PROP(arbitrary_bytes, 120000, 4000000, "token soups, mutations of valid documents, documents full of numbers at the edges of the types, random bytes and deep nesting; an accepted document is walked, printed and written; under the sanitizers the memory in use must not grow over repetitions; non-trivial: the text is accepted and gives parameters, or is rejected although it has at least 8 bytes") {
  static const std::string f=tmpfile("c11-"), g=tmpfile("c11o-");
  auto s=text(c); c.d << vp::quote(s.size()>1500?s.substr(0,1500)+"...":s); spit(f,s);
  int n=0; std::string why; bool ok=once(f,g,n,why);
#if defined(__SANITIZE_ADDRESS__)
  auto mem=[]{ return __sanitizer_get_current_allocated_bytes(); };
  { int k; std::string w; size_t grow=0; for (int i=0;i<3;++i) { auto a=mem(); { std::string w2; bool again=once(f,g,k,w2); VP_CHECK(again==ok && k==n,"a second reading of the same text differs"); } auto b=mem(); if (b>a) ++grow; }
    VP_CHECK(grow<3,"every reading of the text leaks memory"); }
#endif
  c.nontrivial(ok ? n>0 : s.size()>=8); c.label(ok?"accepted":"rejected"); c.label("deep",s.size()>1000);
}
