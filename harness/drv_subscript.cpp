// Walks the subscript and broadcasting iterators and converts between subscripts and linear positions.
#include "subscript.hpp"
#include "utilities.hpp"
#include "emit.hpp"
using namespace brille;
template<class T> std::vector<int> toi(const T& v){ return std::vector<int>(v.begin(), v.end()); }
using Rows = std::vector<std::vector<int>>;
template<class It> Rows collect(const It& it, size_t cap=5000){ Rows r; for (auto x: it){ r.push_back(toi(x)); if (r.size()>cap) break; } return r; }
template<class It> Rows collect_manual(It it, size_t cap=5000){ Rows r; auto b=it.begin(); auto e=it.end(); for (; b!=e; ++b){ const auto& x=*b; r.push_back(toi(x)); if (r.size()>cap) break; } return r; }
template<class H, class It> void walk(const std::vector<int>& s, const std::vector<int>& g, bool haveg, const char* kind){
  bool error=false; Rows v, a, c;
  auto mk=[](const std::vector<int>& x){ H h; if constexpr (std::is_same_v<H,std::vector<typename H::value_type>>) h.resize(x.size()); for(size_t i=0;i<x.size();++i) h[i]=(typename H::value_type)x[i]; return h; };
  try { It it = haveg ? It(mk(s), mk(g)) : It(mk(s)); v=collect(it); 
    It moved(it); { size_t k=0; for (auto b=it.begin(); b!=it.end() && k<3; ++b,++k) {} } a=collect_manual(moved);
    It asg; asg = it; if (!v.empty()) ++asg; c=collect(asg);   // begin() of an advanced iterator starts over
  } catch (const std::exception&){ error=true; }
  std::vector<int> gg = g; if(!haveg) gg.assign(s.size(), -1);
  // an unsigned iterator sees a negative subscript as a large one
  emit::Event("Walk").f("kind",kind).f("shape",s).f("given",gg).f("error",error).f("visited",v).f("again",a).f("assigned",c);
}
template<class H, class It> void broad(const std::vector<int>& x, const std::vector<int>& y, const char* kind){
  auto mk=[](const std::vector<int>& x){ H h; if constexpr (std::is_same_v<H,std::vector<typename H::value_type>>) h.resize(x.size()); for(size_t i=0;i<x.size();++i) h[i]=(typename H::value_type)x[i]; return h; };
  bool error=false; std::vector<Rows> v; std::vector<int> outer; long count=0;
  try { It it(mk(x), mk(y)); outer=toi(it.shape()); count=(long)it.size();
    for (auto [o,a,b]: it){ v.push_back({toi(o),toi(a),toi(b)}); if (v.size()>5000) break; }
  } catch (const std::exception&){ error=true; }
  emit::Event("Broadcast").f("kind",kind).f("a",x).f("b",y).f("error",error).f("outer",outer).f("count",count).f("visited",v);
}
static std::vector<int> rd(int n){ std::vector<int> r(n); for(auto& x:r) std::cin>>x; return r; }
int main(){
  std::string op;
  while (std::cin >> op){
    if (op=="Reset"){ emit::Event("Reset"); continue; }
    int n; std::cin >> n;
    if (op=="Walk"){ auto s=rd(n), g=rd(n); int have; std::cin >> have;
      walk<std::vector<int>,SubIt<int>>(s,g,have,"SubIt<int>");
      walk<std::vector<unsigned>,SubIt<unsigned>>(s,g,have,"SubIt<unsigned>");
      if (n==2){ walk<std::array<int,2>,SubIt2<int>>(s,g,have,"SubIt2<int>"); walk<std::array<unsigned,2>,SubIt2<unsigned>>(s,g,have,"SubIt2<unsigned>"); }
    } else if (op=="Broadcast"){ auto a=rd(n), b=rd(n);
      broad<std::vector<int>,BroadcastIt<int>>(a,b,"BroadcastIt<int>");
      broad<std::vector<unsigned>,BroadcastIt<unsigned>>(a,b,"BroadcastIt<unsigned>");
      if (n==2){ broad<std::array<int,2>,BroadcastIt2<int>>(a,b,"BroadcastIt2<int>"); broad<std::array<unsigned,2>,BroadcastIt2<unsigned>>(a,b,"BroadcastIt2<unsigned>"); }
    } else if (op=="Linear"){ auto s=rd(n); std::string order; std::cin >> order;
      std::vector<unsigned> st(n); unsigned p=1;
      if (order=="row") for (int i=n;i--;){ st[i]=p; p*=s[i]; } else for (int i=0;i<n;++i){ st[i]=p; p*=s[i]; }
      std::vector<unsigned> sh(s.begin(), s.end());
      Rows subs; std::vector<int> lins; std::vector<bool> ok;
      for (unsigned l=0;l<p;++l){ auto x=lin2sub(l, st); subs.push_back(toi(x)); lins.push_back((int)sub2lin(x,st)); ok.push_back(utils::subscript_ok(x, sh)); }
      bool outside=false;
      for (int d=0; d<n; ++d){ std::vector<unsigned> o(n,0); o[d]=sh[d]; outside = outside || utils::subscript_ok(o, sh); }
      emit::Event("Linear").f("kind","vector").f("shape",s).f("order",order).f("subs",subs).f("lins",lins).f("ok",ok).f("outside",outside);
      if (n==2){ Rows s2; std::vector<int> l2; std::vector<bool> o2; std::array<unsigned,2> a{{st[0],st[1]}}, ash{{sh[0],sh[1]}};
        for (unsigned l=0;l<p;++l){ auto x=lin2sub(l,a); s2.push_back(toi(x)); l2.push_back((int)sub2lin(x,a)); if (sub2lin(x[0],x[1],a)!=sub2lin(x,a)) l2.back()=-1; o2.push_back(utils::subscript_ok(x,ash)); }
        emit::Event("Linear").f("kind","array").f("shape",s).f("order",order).f("subs",s2).f("lins",l2).f("ok",o2).f("outside",utils::subscript_ok(std::array<unsigned,2>{{ash[0],0}},ash)||utils::subscript_ok(std::array<unsigned,2>{{0,ash[1]}},ash)); }
    } else if (op=="Strided"){ auto s=rd(n), g=rd(n); // a view's strides: each a multiple of what is below it
      std::vector<unsigned> st(g.begin(), g.end()), sh(s.begin(), s.end());
      Rows back; std::vector<int> lins;
      for (auto x: SubIt<unsigned>(sh)){ unsigned l=sub2lin(x,st); lins.push_back((int)l); back.push_back(toi(lin2sub(l,st))); }
      emit::Event("Strided").f("kind","vector").f("shape",s).f("stride",g).f("lins",lins).f("back",back);
      if (n==2){ Rows b2; std::vector<int> l2; std::array<unsigned,2> a{{st[0],st[1]}}, ash{{sh[0],sh[1]}};
        for (auto x: SubIt2<unsigned>(ash)){ unsigned l=sub2lin(x,a); l2.push_back(sub2lin(x[0],x[1],a)==l ? (int)l : -1); b2.push_back(toi(lin2sub(l,a))); }
        emit::Event("Strided").f("kind","array").f("shape",s).f("stride",g).f("lins",l2).f("back",b2); }
    } else BAD_SCRIPT("unknown op "<<op);
  }
}
