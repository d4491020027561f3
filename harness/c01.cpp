// C01: parameter lists against a reference model of nested typed maps
#define VP_MAIN
#include "vp.hpp"
#include "ekat_parameter_list.hpp"
#include <variant>
void vp_init (int&, char**&) {}
void vp_fini () {}
using PL = ekat::ParameterList;
using ES = PL::EmptySeq;
struct Custom { int a; std::string b; };
inline bool operator== (const Custom& x, const Custom& y) { return x.a==y.a && x.b==y.b; }

using Val = std::variant<int,double,bool,std::string,float,std::vector<int>,std::vector<std::string>,std::vector<double>,std::vector<bool>,Custom,long,ES>;
constexpr int NT = 12, ESI = 11;
struct Model {
  std::string name;
  std::map<std::string,Val> p;
  std::map<std::string,Model> s;
};
static const char* tname[NT] = {"int","double","bool","string","float","vector<int>","vector<string>","vector<double>","vector<bool>","Custom","long","EmptySeq"};

template<int I> using VT = std::variant_alternative_t<I,Val>;
template<typename F> void with_type (int t, F&& f) {
  switch (t) {
    case 0: f(std::integral_constant<int,0>()); break; case 1: f(std::integral_constant<int,1>()); break;
    case 2: f(std::integral_constant<int,2>()); break; case 3: f(std::integral_constant<int,3>()); break;
    case 4: f(std::integral_constant<int,4>()); break; case 5: f(std::integral_constant<int,5>()); break;
    case 6: f(std::integral_constant<int,6>()); break; case 7: f(std::integral_constant<int,7>()); break;
    case 8: f(std::integral_constant<int,8>()); break; case 9: f(std::integral_constant<int,9>()); break;
    case 10: f(std::integral_constant<int,10>()); break; default: f(std::integral_constant<int,11>()); break;
  }
}
template<typename T> bool eq (const T& a, const T& b) {
  if constexpr (std::is_same<T,ES>::value) return true; else return a==b;
}
static Val gen_val (vp::Case& c, int t) {
  auto s = [&]{ return c.str("abXY 1_",0,20); };
  switch (t) {
    case 0: return Val(std::in_place_index<0>,(int)c.range(-1000,1000));
    case 1: return Val(std::in_place_index<1>,c.real<double>());
    case 2: return Val(std::in_place_index<2>,c.b());
    case 3: return Val(std::in_place_index<3>,s());
    case 4: return Val(std::in_place_index<4>,c.real<float>());
    case 5: { std::vector<int> v(c.size(0,6)); for (auto& x:v) x=(int)c.range(-9,9); return Val(std::in_place_index<5>,v); }
    case 6: { std::vector<std::string> v(c.size(0,4)); for (auto& x:v) x=s(); return Val(std::in_place_index<6>,v); }
    case 7: { std::vector<double> v(c.size(0,4)); for (auto& x:v) x=c.real<double>(); return Val(std::in_place_index<7>,v); }
    case 8: { std::vector<bool> v(c.size(0,4)); for (size_t i=0;i<v.size();++i) v[i]=c.b(); return Val(std::in_place_index<8>,v); }
    case 9: return Val(std::in_place_index<9>,Custom{(int)c.range(0,9),s()});
    case 10: return Val(std::in_place_index<10>,(long)c.range(-5,5));
    default: return Val(std::in_place_index<11>,ES());
  }
}
static std::string show (const Val& v) {
  std::ostringstream o; o << tname[v.index()];
  switch (v.index()) { case 0: o << " " << std::get<0>(v); break; case 1: o << " " << std::get<1>(v); break; case 2: o << " " << std::get<2>(v); break;
    case 3: o << " '" << std::get<3>(v) << "'"; break; case 5: o << "["; for (int x:std::get<5>(v)) o << x << " "; o << "]"; break; default: break; }
  return o.str();
}
template<int I> bool holds (const PL& l, const std::string& n, const Val& m) {
  // value equality through the const interface
  return eq(l.get<VT<I>>(n),std::get<I>(m));
}
static void compare (const PL& l, const Model& m, const std::string& where) {
  VP_CHECK(l.name()==m.name,where << ": list name is '" << l.name() << "', expected '" << m.name << "'");
  std::vector<std::string> pn,sn; for (auto& x:m.p) pn.push_back(x.first); for (auto& x:m.s) sn.push_back(x.first);
  auto gp=l.param_names(), gs=l.sublist_names();
  std::sort(gp.begin(),gp.end()); std::sort(gs.begin(),gs.end());
  auto str=[](const std::vector<std::string>& v){ std::string s="{"; for (auto& x:v) s+=x+","; return s+"}"; };
  VP_CHECK(gp==pn,where << ": parameters are " << str(gp) << ", expected " << str(pn));
  VP_CHECK(gs==sn,where << ": sublists are " << str(gs) << ", expected " << str(sn));
  for (auto& x : m.p) {
    VP_CHECK(l.isParameter(x.first),where << ": parameter '" << x.first << "' is missing");
    with_type((int)x.second.index(),[&](auto I){
      VP_CHECK(l.isType<VT<I()>>(x.first),where << ": parameter '" << x.first << "' is not of type " << tname[I()]);
      VP_CHECK(holds<I()>(l,x.first,x.second),where << ": parameter '" << x.first << "' has another value than " << show(x.second));
    });
  }
  for (auto& x : m.s) {
    VP_CHECK(l.isSublist(x.first),where << ": sublist '" << x.first << "' is missing");
    compare(l.sublist(x.first),x.second,where+"/"+x.first);
  }
}
static void import_model (Model& m, const Model& src) { // by value semantics: src is already a copy
  for (auto& x : src.s) {
    auto it=m.s.find(x.first);
    if (it==m.s.end()) m.s[x.first]=x.second;
    else { import_model(it->second,x.second); it->second.name=x.second.name; }
  }
  for (auto& x : src.p) m.p[x.first]=x.second;
}
// what print shows: one line per parameter (with the value, for the common types), then the sublists one more step to the right
static void print_model (const Model& m, int ind, int inc, std::vector<std::string>& out) {
  std::string t((size_t)ind,' '); out.push_back(t+m.name+":"); t.append((size_t)inc,' ');
  auto vec=[](const auto& v, std::ostream& o){ for (size_t i=0;i<v.size();++i) { if (i) o << " "; o << v[i]; } };
  for (auto& x:m.p) { std::ostringstream o; o << std::showpoint << std::boolalpha << t << x.first << ": "; bool known=true;
    std::visit([&](const auto& v){ using T=std::decay_t<decltype(v)>; if constexpr (std::is_same<T,Custom>::value || std::is_same<T,long>::value || std::is_same<T,ES>::value) known=false; else if constexpr (ekat::is_vector_v<T>) vec(v,o); else o << v; },x.second);
    out.push_back(o.str()+(known?"":"?")); }
  for (auto& x:m.s) print_model(x.second,ind+inc,inc,out);
}
struct Node { PL* l; Model* m; std::string path; };
static const std::vector<std::string> names {"a","b","c","A","dd"};

VP_PROP(list_histories, 250000, 6000000, "histories of 1-40 set/get/sublist/rename/copy/assign/import operations on four lists and their sublists, compared in full with a model after every operation; non-trivial: the history contains an assignment, copy or import over lists that are not empty") {
  PL l[4]; Model m[4];
  for (int i=0;i<4;++i) if (i!=2) { std::string n="L"+std::to_string(i); l[i]=PL(n); m[i].name=n; }
  int nops = c.size(1,40); int wrong=0;
  auto node = [&]()->Node {
    int i=(int)c.below(4); Node n{&l[i],&m[i],"L"+std::to_string(i)};
    int depth=(int)c.weighted({5,4,2,1});
    for (int k=0;k<depth;++k) {
      if (n.m->s.empty()) break;
      auto it=n.m->s.begin(); std::advance(it,c.below(n.m->s.size()));
      n.path+="/"+it->first; n.l=&n.l->sublist(it->first); n.m=&it->second;
    }
    return n;
  };
  auto some_param = [&](Node& n)->std::string {
    if (!n.m->p.empty() && !c.chance(1,5)) { auto it=n.m->p.begin(); std::advance(it,c.below(n.m->p.size())); return it->first; }
    return c.pick(names);
  };
  for (int op=0; op<nops; ++op) {
    Node n=node();
    switch (c.weighted({8,4,4,3,6,2,3,6,4,4,3,2,2})) {
      case 0: { // set
        auto name=c.pick(names); int t=(int)c.below(NT); Val v=gen_val(c,t);
        c.d << n.path << ".set(" << name << "," << show(v) << ")\n";
        with_type(t,[&](auto I){ n.l->set<VT<I()>>(name,std::get<I()>(v)); });
        n.m->p[name]=v; break; }
      case 1: { // const get / isType with any type
        auto name=some_param(n); int t=(int)c.below(NT);
        c.d << n.path << ".get<" << tname[t] << ">(" << name << ") const\n";
        auto it=n.m->p.find(name);
        bool vec = t>=5 && t<=8;
        bool ok = it!=n.m->p.end() && ((int)it->second.index()==t || (vec && (int)it->second.index()==ESI));
        const PL& cl=*n.l;
        with_type(t,[&](auto I){
          bool thrown=vp::throws([&]{ auto x=cl.get<VT<I()>>(name); (void)x; if (it!=n.m->p.end() && (int)it->second.index()==ESI && t!=ESI) { if constexpr (I()>=5 && I()<=8) VP_CHECK(x.empty(),"an empty sequence is not empty"); } });
          VP_CHECK(thrown==!ok,"const get<" << tname[t] << ">(" << name << ") " << (thrown?"threw":"did not throw"));
          bool tt=vp::throws([&]{ bool is=cl.isType<VT<I()>>(name); VP_CHECK(is==((int)it->second.index()==t),"isType<" << tname[t] << "> is " << is); });
          VP_CHECK(tt==(it==n.m->p.end()),"isType of " << name << (tt?" threw":" did not throw"));
        });
        if (!ok) ++wrong;
        break; }
      case 2: { // mutable get, then write through the reference
        auto name=some_param(n); auto it=n.m->p.find(name);
        int t = it!=n.m->p.end() && !c.chance(1,3) ? (int)it->second.index() : (int)c.below(NT);
        bool vec = t>=5 && t<=8, was_es = it!=n.m->p.end() && (int)it->second.index()==ESI;
        bool ok = it!=n.m->p.end() && ((int)it->second.index()==t || (vec && was_es));
        bool write=c.b(); Val v=gen_val(c,t);
        c.d << n.path << ".get<" << tname[t] << ">(" << name << ")" << (write?" = "+show(v):"") << "\n";
        with_type(t,[&](auto I){
          bool thrown=vp::throws([&]{ auto& x=n.l->get<VT<I()>>(name); if (write) x=std::get<I()>(v); });
          VP_CHECK(thrown==!ok,"get<" << tname[t] << ">(" << name << ") " << (thrown?"threw":"did not throw"));
          if (ok) {
            if (was_es && vec) it->second.template emplace<I()>(VT<I()>());
            if (write) it->second=v;
          }
        });
        if (!ok) ++wrong;
        break; }
      case 3: { // get with a default
        auto name=some_param(n); auto it=n.m->p.find(name);
        int t=it!=n.m->p.end() && !c.chance(1,3) ? (int)it->second.index() : (int)c.below(NT); Val v=gen_val(c,t);
        bool vec = t>=5 && t<=8, was_es = it!=n.m->p.end() && (int)it->second.index()==ESI;
        bool ok = it==n.m->p.end() || (int)it->second.index()==t || (vec && was_es);
        c.d << n.path << ".get(" << name << ", default " << show(v) << ")\n";
        with_type(t,[&](auto I){
          bool thrown=vp::throws([&]{ auto x=n.l->get<VT<I()>>(name,std::get<I()>(v)); (void)x; });
          VP_CHECK(thrown==!ok,"get(" << name << ",default) " << (thrown?"threw":"did not throw"));
          if (it==n.m->p.end()) n.m->p[name]=v;
          else if (was_es && vec && ok) it->second.template emplace<I()>(VT<I()>());
        });
        break; }
      case 4: { // sublist access, creating it if needed
        auto name=c.pick(names);
        c.d << n.path << ".sublist(" << name << ")\n";
        bool has=n.m->s.count(name)>0; const PL& cl=*n.l;
        VP_CHECK(n.l->isSublist(name)==has,"isSublist(" << name << ")");
        if (!has) {
          VP_CHECK(vp::throws([&]{ (void)cl.sublist(name); }),"const sublist(" << name << ") of a missing sublist did not throw");
          Model s; s.name=name; n.m->s[name]=s;
        }
        PL& x=n.l->sublist(name);
        VP_CHECK(&x==&n.l->sublist(name) && &x==&cl.sublist(name),"sublist(" << name << ") gives different objects");
        break; }
      case 5: { std::string nn=c.str("xyz",0,3); c.d << n.path << ".rename(" << nn << ")\n"; n.l->rename(nn); n.m->name=nn; break; }
      case 6: { // remove nothing: missing names
        auto name=c.pick(names);
        c.d << n.path << ".isParameter(" << name << ")\n";
        VP_CHECK(n.l->isParameter(name)==(n.m->p.count(name)>0),"isParameter(" << name << ")");
        break; }
      case 7: { // assignment between any two nodes
        Node o=node(); Model copy=*o.m;
        c.d << n.path << " = " << o.path << "\n";
        c.nontrivial((!n.m->p.empty()||!n.m->s.empty())&&(!o.m->p.empty()||!o.m->s.empty()));
        c.label("assign from own sublist",o.path.rfind(n.path+"/",0)==0); c.label("assign to own sublist",n.path.rfind(o.path+"/",0)==0);
        c.label("assign to self",n.path==o.path); c.label("assign over non-empty",!n.m->p.empty()||!n.m->s.empty());
        PL& r = (*n.l = *o.l);
        VP_CHECK(&r==n.l,"assignment does not return its target");
        *n.m=copy; break; }
      case 8: { // import
        Node o=node(); Model copy=*o.m;
        c.d << n.path << ".import(" << o.path << ")\n";
        c.nontrivial((!n.m->p.empty()||!n.m->s.empty())&&(!o.m->p.empty()||!o.m->s.empty()));
        c.label("import own sublist",o.path.rfind(n.path+"/",0)==0); c.label("import into own sublist",n.path.rfind(o.path+"/",0)==0);
        n.l->import(*o.l); import_model(*n.m,copy); break; }
      case 9: { // copy construct into slot 3 through a temporary that is modified afterwards
        c.d << "{ PL t(" << n.path << "); change t; L3 = t; change t }\n";
        c.nontrivial(!n.m->p.empty()||!n.m->s.empty());
        PL t(*n.l); Model tm=*n.m;
        compare(t,tm,"copy");
        t.set("copied",op); tm.p["copied"]=Val(std::in_place_index<0>,op);
        for (auto& x : tm.s) { t.sublist(x.first).set("in",true); x.second.p["in"]=Val(std::in_place_index<2>,true); }
        compare(t,tm,"changed copy");
        l[3]=t; m[3]=tm;
        t.set("copied",std::string("late")); for (auto& x : tm.s) t.sublist(x.first).rename("late");
        break; }
      case 10: { // write into a sublist directly
        auto sn=c.pick(names), pn=c.pick(names); int v=(int)c.range(-9,9);
        c.d << n.path << ".sublist(" << sn << ").set(" << pn << ",int " << v << ")\n";
        n.l->sublist(sn).set<int>(pn,v);
        if (!n.m->s.count(sn)) n.m->s[sn].name=sn;
        n.m->s[sn].p[pn]=Val(std::in_place_index<0>,v); break; }
      case 11: { // change type of an existing parameter
        auto name=some_param(n); int t=(int)c.below(NT); Val v=gen_val(c,t);
        c.d << n.path << ".set(" << name << "," << show(v) << ") (retype)\n";
        with_type(t,[&](auto I){ n.l->set(name,std::get<I()>(v)); });
        n.m->p[name]=v; break; }
      default: {
        int ind=c.irange(0,3), inc=c.irange(0,4); bool def=c.chance(1,3); std::ostringstream o; c.d << n.path << ".print()" << (def?"":" with "+std::to_string(ind)+", "+std::to_string(inc)) << "\n";
        if (def) { ind=0; inc=1; n.l->print(o); } else n.l->print(o,ind,inc);
        std::vector<std::string> w; print_model(*n.m,ind,inc,w); std::string txt=o.str(), got; std::vector<std::string> g; for (char ch:txt) if (ch=='\n') { g.push_back(got); got.clear(); } else got+=ch;
        VP_CHECK(got.empty() && g.size()==w.size(),"printed " << vp::quote(txt) << ", expected " << w.size() << " lines");
        for (size_t i=0;i<w.size();++i) { bool any=!w[i].empty() && w[i].back()=='?'; auto p=w[i].substr(0,w[i].size()-(any?1:0)); VP_CHECK(any ? g[i].compare(0,p.size(),p)==0 : g[i]==p,"line " << i << " printed is " << vp::quote(g[i]) << ", expected " << vp::quote(p)); }
        break; }
    }
    for (int i=0;i<4;++i) compare(l[i],m[i],"L"+std::to_string(i));
  }
  c.label("wrong-type or missing get",wrong>0);
}
