// C12: parameter lists written to YAML and read back
#define VP_MAIN
#include "yaml_ref.hpp"
void vp_init (int&, char**&) { if (freopen("/dev/null","w",stdout)) {} }
void vp_fini () {}
static double dbl (vp::Case& c) {
  switch (c.weighted({4,4,3,2})) {
    case 0: return c.real<double>();
    case 1: { double m=(double)c.range(1,(1ll<<53)-1); double x=std::ldexp(m,(int)c.range(-1000,900)); return c.b()?-x:x; }
    case 2: { double x=(double)c.range(1,99)*std::pow(10.0,(double)c.range(-300,300)); return c.b()?-x:x; }
    default: return c.pick({0.0,-0.0,1e20,1e10,1e100,1e-10,1e14,1e15,123456789012345.0,2147483648.0,-2147483649.0,DBL_MAX,-DBL_MAX,DBL_MIN,4.9e-324,1e-320,0.1,1.0/3,9.99999999999999,99999999999999.5,1e200,1000000000000000.0,1.0000000000001});
  }
}
static int integer (vp::Case& c) { return c.b() ? (int)c.range(-100,100) : c.chance(1,5) ? c.pick({INT_MAX,INT_MIN,INT_MAX-1,0,-1,1000000000}) : (int)c.range(INT_MIN,INT_MAX); }
static std::string text (vp::Case& c) {
  switch (c.weighted({4,3,3,3,2})) {
    case 0: return c.str("abcXY z_",0,12);
    case 1: { std::string s=c.pick<const char*>({"true","False","TRUE","5","-3","1.5","1e20","-2.5E-3","99999999999","--5","null","~","Null","NULL","yes","no","on","off",".inf","nan","0x10","!","!!int 3","&a","*a","- x","-","?","? a",":","a: b","a:","# c","a #c","[1]","{a: b}","'q'","\"q\"","|",">","%x","@","`","---","...","<<","=","=x","y","n","1:30","2001-01-01","\\n","0","1.","+1",".5","1,2"}); return c.chance(1,5) ? s+c.str(" x1",1,2) : s; }
    case 2: return c.str("ab 1.:#,[]{}'\"\\-&*!|>%@`~?=<",0,12);
    case 3: return c.str("ab \n\n\t:#-'\"",0,14);
    default: { static const std::vector<std::string> u {"a"," ","1","\xc3\xa9","\xe6\xbc\xa2","\xf0\x9f\x98\x80","\n",": ","\x01","\x7f","\x1b","\r","\xc2\xa0","\xc2\x85","\xe2\x80\xa8"}; std::string s; int n=c.size(1,6); for (int i=0;i<n;++i) s+=c.pick(u); return s; }
  }
}
template<typename F> static auto vec (vp::Case& c, F f, int hi) { std::vector<decltype(f(c))> v; int n=c.size(1,hi); for (int i=0;i<n;++i) v.push_back(f(c)); return v; }
static YV value (vp::Case& c) {
  switch (c.weighted({3,2,4,5,2,2,3,3,1})) {
    case 0: return YV(integer(c)); case 1: return YV(c.b()); case 2: return YV(dbl(c)); case 3: return YV(text(c));
    case 4: { std::vector<char> v(c.size(1,20)); for (auto& x:v) x=c.b(); return YV(v); }
    case 5: return YV(vec(c,integer,40)); case 6: return YV(vec(c,dbl,20)); case 7: return YV(vec(c,text,12));
    default: return YV(ES());
  }
}
static std::string name (vp::Case& c) { if (c.chance(5,6)) return c.str("abcK",1,3)+(c.chance(1,6)?" x":""); auto s=text(c); return s.empty() ? "e" : s; }
static bool typed_empty;
static void gen (vp::Case& c, PL& l, Tree& t, int depth) {
  int n=c.size(0,8);
  for (int i=0;i<n;++i) {
    auto k=name(c); if (k=="<<") k="lt"; // the merge key
    if (k.compare(0,3,"---")==0 || k.compare(0,3,"...")==0) k="d"+k; // the YAML library writes these unquoted, as document markers
    if (t.p.count(k)||t.s.count(k)) continue;
    if (depth>0 && c.chance(1,4)) { if (c.chance(1,4)) { PL o(name(c)); gen(c,o,t.s[k],depth-1); l.sublist(k)=o; } else { gen(c,l.sublist(k),t.s[k],depth-1); if (c.chance(1,8)) l.sublist(k).rename(name(c)); } continue; }
    YV v=value(c); t.p[k]=v; if (v.index()==8 && c.b()) { typed_empty=true; if (c.b()) l.set(k,std::vector<int>()); else l.set(k,std::vector<std::string>()); }
    else std::visit([&](const auto& x){ l.set(k,x); },v);
  }
}
VP_PROP(round_trips, 150000, 4000000, "lists of all writable types nested up to 4 deep, written, read, compared with what was stored, written again and read again; non-trivial: a double, or a string that has blanks, punctuation or the look of another type, or a sequence") {
  static const std::string f=tmpfile("c12-");
  PL p("list"); Tree t; typed_empty=false; gen(c,p,t,c.irange(0,4)); show(c.d,t);
  ekat::write_yaml_file(f,p); auto out=slurp(f);
  PL q; try { q=ekat::parse_yaml_file(f); } catch (std::exception& e) { VP_FAIL("the text written cannot be read: " << e.what() << "\ntext:\n" << out); }
  try { check_tree(q,t,"",false); if (!typed_empty) check_tree(p,t,"(source)",true); } catch (vp::Fail& e) { VP_FAIL(e.msg << "\ntext:\n" << out); }
  ekat::write_yaml_file(f,q); q=ekat::parse_yaml_file(f); check_tree(q,t,"(second round)",false);
  bool dd=false,ss=false,vv=false; std::function<void(const Tree&)> look=[&](const Tree& x){ for (auto& y:x.p) { dd|=y.second.index()==2; vv|=y.second.index()>3; if (y.second.index()==3) ss|=std::get<3>(y.second).find_first_not_of("abcXYz_")!=std::string::npos; } for (auto& y:x.s) look(y.second); }; look(t);
  c.nontrivial(dd||ss||vv); c.label("double",dd); c.label("string to quote",ss); c.label("sequence",vv); c.label("sublists",!t.s.empty());
}
VP_PROP(unsupported, 200, 2000, "values of types the writer does not know are rejected; non-trivial: all") {
  static const std::string f=tmpfile("c12u-");
  PL p("x"); p.set<int>("a",1); PL& w = c.b() ? p.sublist("s").sublist("t") : p; int k=(int)c.below(5); c.d << k;
  if (k==0) w.set<float>("v",1.5f); else if (k==1) w.set<long>("v",3); else if (k==2) w.set<char>("v",'a'); else if (k==3) w.set<std::vector<float>>("v",{1}); else w.set<std::vector<bool>>("v",{true});
  VP_CHECK(vp::throws([&]{ ekat::write_yaml_file(f,p); }),"no exception"); c.nontrivial();
}
