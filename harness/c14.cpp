// C14: histories of registrations and creations over several factories, against one map per factory
#define VP_MAIN
#include "vp.hpp"
#include <memory>
#include "ekat_string_utils.hpp"
#include "ekat_factory.hpp"
void vp_init (int&, char**&) {}
void vp_fini () {}
using ekat::Factory; using ekat::CaseInsensitiveString;
struct Prod { virtual ~Prod () = default; int id=-1; std::string args; };
struct Other { virtual ~Other () = default; int id=-1; std::string args; };
struct Opaque { int k; bool operator< (const Opaque& o) const { return k<o.k; } };
enum class Enum { a,b,c,d,e };
struct Tracked { int v; std::shared_ptr<int> copies; };
template<typename P, typename B, int ID, typename... A> struct Maker { static P make (const A... a) {
  auto* p=new B(); p->id=ID; std::ostringstream o; auto put=[&](const auto& x){ using X=std::decay_t<decltype(x)>; if constexpr (std::is_same<X,std::vector<int>>::value) for (int i:x) o << i << ";"; else o << x << "|"; }; (put(a),...); (void)put; p->args=o.str(); return P(p);
} };
template<typename F, typename P, typename B, typename... A> static typename F::creator_type creator (int id) {
  static const typename F::creator_type t[]={&Maker<P,B,0,A...>::make,&Maker<P,B,1,A...>::make,&Maker<P,B,2,A...>::make,&Maker<P,B,3,A...>::make,&Maker<P,B,4,A...>::make}; return t[id];
}
static const std::vector<std::string> keys {"a","A","ab","Ab","aB","b","","key one","Key One","a b","zz"};
struct IF { // one factory and its model
  virtual ~IF () = default; virtual void clear () = 0; virtual void step (vp::Case& c, int which) = 0; virtual void check () = 0; int koff=0, kuse=1, replaced=0, refused=0, unknown=0, created=0;
};
template<typename Obj, typename K, typename Ptr, typename... A> struct FT : IF {
  using F=Factory<Obj,K,Ptr,A...>; static constexpr int NK=(std::is_same<K,std::string>::value||std::is_same<K,CaseInsensitiveString>::value)?11:5;
  F& f=F::instance(); std::map<int,int> m; // canonical key index -> creator
  static K key (int i) { if constexpr (NK==11) return K(keys[i]); else if constexpr (std::is_same<K,Opaque>::value) return Opaque{i}; else return K(i); }
  static int canon (int i) { if constexpr (std::is_same<K,CaseInsensitiveString>::value) { for (int j=0;j<=i;++j) { auto up=[](std::string s){ for (auto& ch:s) ch=toupper(ch); return s; }; if (up(keys[j])==up(keys[i])) return j; } } return i; }
  static std::string kt (int i) { if constexpr (NK==11) return vp::quote(keys[i]); else return "#"+std::to_string(i); }
  void clear () override { f.clean_up(); m.clear(); }
  void check () override {
    VP_CHECK(&F::instance()==&f,"instance() returns another factory");
    VP_CHECK(f.register_size()==m.size(),"register_size is " << f.register_size() << ", expected " << m.size());
    for (int i=0;i<NK;++i) VP_CHECK(f.has_product(key(i))==(m.count(canon(i))>0),"has_product(" << kt(i) << ") is " << f.has_product(key(i)));
  }
  static std::string show (int i, const std::string& s, const std::vector<int>& v) { (void)i;(void)s;(void)v; std::ostringstream o; auto put=[&](auto* t){ using T=std::decay_t<std::remove_pointer_t<decltype(t)>>; if constexpr (std::is_same<T,int>::value) o << i << "|"; else if constexpr (std::is_same<T,std::string>::value) o << s << "|"; else for (int x:v) o << x << ";"; }; (put((std::remove_reference_t<A>*)nullptr),...); (void)put; return o.str(); }
  template<typename T> static T arg (int i, const std::string& s, const std::vector<int>& v) { using U=std::decay_t<T>; if constexpr (std::is_same<U,int>::value) return i; else if constexpr (std::is_same<U,std::string>::value) return s; else return v; }
  void step (vp::Case& c, int which) override {
    int i=(int)((koff+c.below(kuse))%NK), k=canon(i);
    switch (c.weighted({5,6,1})) {
      case 0: { int id=(int)c.below(5), mode=(int)c.below(3); bool rep=mode==2; c.d << "F" << which << ".register(" << kt(i) << ",creator " << id << (mode==0?"":rep?",replace":",keep") << ")\n";
        bool r = mode==0 ? f.register_product(key(i),creator<F,Ptr,Obj,A...>(id)) : f.register_product(key(i),creator<F,Ptr,Obj,A...>(id),rep);
        bool had=m.count(k); bool want=!had||rep; if (want) m[k]=id; replaced+=had&&rep; refused+=had&&!rep;
        VP_CHECK(r==want,"register_product returned " << r); break; }
      case 1: { int x=(int)c.range(-9,9); std::string s=c.str("xy ",0,4); std::vector<int> v(c.size(0,3),x); c.d << "F" << which << ".create(" << kt(i) << ")\n";
        auto it=m.find(k); std::string what;
        if (it==m.end()) {
          ++unknown; VP_CHECK(vp::throws([&]{ f.create(key(i),arg<A>(x,s,v)...); },&what),"creating an unknown product does not throw");
          if (NK==11 && !m.empty()) VP_CHECK(what.find("'"+keys[i]+"'")!=std::string::npos || (what.find(keys[i])!=std::string::npos && !keys[i].empty()),"the error does not name the key: " << what);
        } else {
          Ptr p=f.create(key(i),arg<A>(x,s,v)...); ++created; VP_CHECK(p && p->id==it->second,"created by creator " << (p?p->id:-1) << ", expected " << it->second);
          VP_CHECK(p->args==show(x,s,v),"the creator received " << vp::quote(p->args) << ", expected " << vp::quote(show(x,s,v)));
          Ptr q=f.create(key(i),arg<A>(x,s,v)...); VP_CHECK(&*p!=&*q,"the same object is returned twice");
        }
        break; }
      default: c.d << "F" << which << ".clean_up\n"; f.clean_up(); m.clear();
    }
  }
};
VP_PROP(histories, 150000, 4000000, "histories of 1-40 registrations (with and without replacement), creations and clean-ups interleaved over seven factories with string, case-insensitive, int, enum and unprintable keys; all factories compared with their maps after every step; non-trivial: a product was created and an existing key was registered again, or an unknown key was asked for") {
  static std::vector<std::unique_ptr<IF>> fs; if (fs.empty()) { auto add=[](auto* p){ fs.emplace_back(p); };
    add(new FT<Prod,std::string,std::shared_ptr<Prod>>()); add(new FT<Prod,std::string,std::unique_ptr<Prod>>()); add(new FT<Prod,CaseInsensitiveString,std::shared_ptr<Prod>,int,const std::string&>());
    add(new FT<Prod,int,std::shared_ptr<Prod>,int>()); add(new FT<Other,std::string,std::shared_ptr<Other>>()); add(new FT<Prod,Opaque,std::unique_ptr<Prod>,std::vector<int>,std::string>()); add(new FT<Prod,Enum,std::shared_ptr<Prod>>()); }
  for (auto& f:fs) { f->clear(); f->replaced=f->refused=f->unknown=f->created=0; }
  int koff=(int)c.below(11), kuse=c.irange(1,6); for (auto& f:fs) { f->koff=koff; f->kuse=kuse; }
  int n=c.size(1,40), used=c.irange(1,7), first=(int)c.below(7);
  for (int i=0;i<n;++i) { int w=(first+(int)c.below(used))%7; fs[w]->step(c,w); for (auto& f:fs) f->check(); }
  int cr=0,re=0,rf=0,un=0; for (auto& f:fs) { cr+=f->created; re+=f->replaced; rf+=f->refused; un+=f->unknown; }
  c.nontrivial((cr && re+rf) || un); c.label("created",cr); c.label("replaced",re); c.label("refused",rf); c.label("unknown key",un);
}
