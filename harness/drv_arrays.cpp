// Drives Array2<int> and Array<int> through a script of operations; every event carries the contents of all live arrays.
#include "emit.hpp"
#include "array_.hpp"
#include "array_functions.hpp"
#include "array_pre.hpp"
#include <variant>
#include <memory>
#include <optional>
#include <algorithm>
#include <map>
#include <sstream>
using namespace brille;
typedef std::vector<ind_t> U; typedef std::vector<int> V;
typedef Array2<int> A2; typedef Array<int> AN;
static std::map<int, std::variant<A2, AN>> live;
static std::istringstream in;
static int num(){ int x; if (!(in>>x)) BAD_SCRIPT("number expected"); return x; }
static V nums(){ V v(num()); for (auto& x: v) x = num(); return v; }
static U inds(){ U v(num()); for (auto& x: v) x = (ind_t)num(); return v; }
static std::string word(){ std::string s; in>>s; return s; }
template<class A> U shp(const A& a){ auto s=a.shape(); return U(s.begin(), s.end()); }
static std::array<ind_t,2> two(const U& u){ if (u.size()!=2) BAD_SCRIPT("two subscripts expected"); return {{u[0],u[1]}}; }
static std::vector<U> subs_of(const U& sh){ // row order, independent of the library
  size_t n=1; for (auto x: sh) n*=x; std::vector<U> out;
  for (size_t k=0;k<n;++k){ U s(sh.size()); size_t r=k; for (size_t d=sh.size(); d--;){ s[d]=(ind_t)(r%sh[d]); r/=sh[d]; } out.push_back(s);} return out; }
static int at(const A2& a, const U& s){ return a[two(s)]; }
static int at(const AN& a, const U& s){ U t(s); return a[t]; }
static int& at(A2& a, const U& s){ return a[two(s)]; }
static int& at(AN& a, const U& s){ U t(s); return a.val(t); }
template<class A> V row_order(const A& a){ V v; for (auto& s: subs_of(shp(a))) v.push_back(at(a,s)); return v; }
template<class A> V iterated(const A& a){ V v; for (auto x: a.valItr()) v.push_back(x); return v; }
static V pointed(const A2& a){ V v; for (ind_t i=0;i<a.size(0);++i){ const int* p=a.ptr(i); for (ind_t j=0;j<a.size(1);++j) { v.push_back(p[j*a.stride()[1]]); if (*a.ptr(i,j)!=a.val(i,j) || *a.data(i==0&&j==0?std::array<ind_t,2>{{0,0}}:std::array<ind_t,2>{{i,j}})!=a.val(i,j)) return V(); } } return v; }
static V pointed(const AN& a){ V v; for (auto& s: subs_of(shp(a))) { v.push_back(a.val(s)); if (*a.ptr(s)!=a.val(s)) return V(); } return v; }
static std::string state(){
  std::string o="["; bool f=true;
  for (auto& [h,x]: live){ if(!f) o+=","; f=false;
    std::visit([&](auto& a){ V r=row_order(a); bool same = r==iterated(a) && r==pointed(a) && a.numel()==r.size();
      o += "{\"h\":"+std::to_string(h)+",\"sh\":"+emit::val(shp(a))+",\"v\":"+emit::val(r)+",\"same\":"+emit::val(same)+"}"; }, x); }
  return o+"]"; }
template<class F> bool attempt(F f){ try { f(); return false; } catch (const std::exception&) { return true; } }
template<class A, class F> void put(int h, F f, bool& err){ std::optional<A> r; err = attempt([&]{ r.emplace(f()); }); if (!err) live.insert_or_assign(h, *r); }
static cmp which(const std::string& s){ if(s=="lt")return cmp::lt; if(s=="gt")return cmp::gt; if(s=="le")return cmp::le; if(s=="ge")return cmp::ge; if(s=="eq")return cmp::eq; return cmp::neq; }
static A2 like(const A2&, const U& sh, const V& v, bool col){ A2 a(two(sh), col ? std::array<ind_t,2>{{1,sh[0]}} : std::array<ind_t,2>{{sh[1],1}}); auto s=subs_of(sh); for(size_t k=0;k<s.size();++k) a[two(s[k])]=v[k]; return a; }
static AN like(const AN&, const U& sh, const V& v, bool col){ U st(sh.size(),1); if(col) for(size_t d=1;d<sh.size();++d) st[d]=st[d-1]*sh[d-1]; else for(size_t d=sh.size()-1; d--;) st[d]=st[d+1]*sh[d+1];
  AN a(sh, st); auto s=subs_of(sh); for(size_t k=0;k<s.size();++k) a.val(s[k])=v[k]; return a; }
static std::variant<A2, AN>& SOURCE(int g){ if (!live.count(g)) BAD_SCRIPT("no array"); return live.at(g); }
template<class A, class B> std::vector<B> bools(const A& x){ std::vector<B> o; for (auto s: subs_of(shp(x))) { if constexpr (std::is_same_v<A, Array2<bool>>) o.push_back(x[two(s)]); else { U t(s); o.push_back(x[t]); } } return o; }
int main(){
  std::string line;
  while (std::getline(std::cin, line)){
    if (line.empty()) continue;
    in = std::istringstream(line); std::string op = word();
    if (op=="Reset"){ live.clear(); emit::Event("Reset"); continue; }
    emit::Event e(op); bool err=false; int h=num(); e.f("h",h);
    if (op=="New"){ int nd=num(); bool col=num(); U sh=inds(); V v=nums(); e.f("sh",sh).f("v",v).f("col",col).f("nd",nd);
      if (nd==2) put<A2>(h,[&]{return like(A2(),sh,v,col);},err); else put<AN>(h,[&]{return like(AN(),sh,v,col);},err); }
    else if (op=="Drop"){ live.erase(h); }
    else if (op=="SetRow"){ int i=num(); V v=nums(); e.f("i",i).f("v",v);
      std::visit([&](auto& a){ err=attempt([&]{ if (v.size()==3 && h%2) a.set((ind_t)i, std::array<int,3>{{v[0],v[1],v[2]}}); else a.set((ind_t)i, v); }); }, SOURCE(h)); }
    else if (op=="SetElem"){ U s=inds(); int x=num(); e.f("sub",s).f("x",x);
      std::visit([&](auto& a){ using A=std::decay_t<decltype(a)>; if (x%2) at(a,s)=x; else if constexpr (std::is_same_v<A,A2>) { if (s[1]==0 && h%2) a.val(s[0])=x; else a.set(two(s),x); } else a.set(s,x); }, SOURCE(h)); }
    else if (op=="Scalar"){ std::string o=word(); int x=num(); e.f("op",o).f("x",x);
      std::visit([&](auto& a){ err=attempt([&]{ if(o=="+") a+=x; else if(o=="-") a-=x; else a*=x; }); }, SOURCE(h)); }
    else if (op=="Resize"){ U s=inds(); int x=num(); e.f("sh",s).f("x",x);
      std::visit([&](auto& a){ using A=std::decay_t<decltype(a)>; err=attempt([&]{ U old=shp(a); bool rows=true; for(size_t d=1;d<s.size();++d) rows &= s[d]==old[d];
        if (rows && h%2) a.resize(s[0],x); else if constexpr (std::is_same_v<A,A2>) a.resize(two(s),x); else a.resize(s,x); }); }, SOURCE(h)); }
    else if (op=="Reshape"){ U s=inds(); e.f("sh",s);
      std::visit([&](auto& a){ using A=std::decay_t<decltype(a)>; err=attempt([&]{ if constexpr (std::is_same_v<A,A2>) a.reshape(two(s)); else a.reshape(s); }); }, SOURCE(h)); }
    else if (op=="Permute"){ U p=inds(); e.f("p",p); std::visit([&](auto& a){ err=attempt([&]{ std::vector<ind_t> q(p); a.permute(q); }); }, SOURCE(h)); }
    else if (op=="Swap"){ int a0=num(), b0=num(); e.f("a",a0).f("b",b0); std::visit([&](auto& a){ err=attempt([&]{ a.swap((ind_t)a0,(ind_t)b0); }); }, SOURCE(h)); }
    else if (op=="SwapIn"){ int i=num(), a0=num(), b0=num(); e.f("i",i).f("a",a0).f("b",b0); std::visit([&](auto& a){ err=attempt([&]{ a.swap((ind_t)i,(ind_t)a0,(ind_t)b0); }); }, SOURCE(h)); }
    else if (op=="Ask"){ std::string c=word(); int x=num(); e.f("cmp",c).f("x",x);
      std::visit([&](auto& a){ using A=std::decay_t<decltype(a)>; const A& b=a; ind_t nd=(ind_t)b.ndim(); std::vector<V> S,P,mi,ma;
        for (ind_t d=0; d<nd; ++d){ S.push_back(row_order(b.sum(d))); P.push_back(row_order(b.prod(d))); mi.push_back(row_order(b.min(d))); ma.push_back(row_order(b.max(d))); }
        e.f("sum",S).f("prod",P).f("min",mi).f("max",ma);
        e.f("neg",row_order(b.operator-())).f("round",row_order(h%3==0?b.round():h%3==1?b.floor():b.ceil()));
        auto is=b.is(which(c),x); e.f("is",bools<decltype(is),bool>(is));
        V lin; for (ind_t k=0;k<b.numel();++k) lin.push_back(b[k]); e.f("lin",lin);
        e.f("find",b.find(which(c),x)).f("first",b.first(which(c),x)).f("last",b.last(which(c),x)).f("count",b.count(which(c),x)).f("any",b.any(which(c),x)).f("all",b.all(which(c),x));
        e.f("firstv",b.first(x,ind_t(0))).f("lastv",b.last(x,ind_t(0))).f("countv",b.count(x,ind_t(0))).f("anyv",b.any(x,ind_t(0))).f("allv",b.all(x,ind_t(0)));
        e.f("firstt",b.first()).f("lastt",b.last()).f("countt",b.count()).f("anyt",b.any()).f("allt",b.all());
        e.f("list",b.to_std()); }, SOURCE(h)); }
    else if (op=="AskRows"){ std::string c=word(); int x=num(); V row=nums(), each=nums(); e.f("cmp",c).f("x",x).f("row",row).f("each",each);
      const A2& b=std::get<A2>(SOURCE(h)); std::vector<int> dots; std::vector<bool> mp;
      for (ind_t i=0;i<b.size(0);++i){ dots.push_back(b.dot(0,i)); mp.push_back(b.match(0,i,ops::plus,x)); }
      auto u=b.unique(); e.f("unique",b.is_unique()).f("uidx",b.unique_idx()).f("ushape",shp(u)).f("urows",row_order(u)).f("sumall",b.sum()).f("prodall",b.prod()).f("dots",dots).f("matchplus",mp);
      std::vector<bool> ei; { A2 r=b.contiguous_row_ordered_copy(); for (ind_t k=0;k<r.numel();++k) ei.push_back(false); auto flat=A2(r); flat.reshape({{r.numel(),1}}); ei=flat.each_is(which(c),each); }
      e.f("rowis",b.row_is(cmp::eq,row)).f("eachis",ei); }
    else if (op=="AskPair"){ int g=num(); std::string c=word(); e.f("g",g).f("cmp",c); const A2& a=std::get<A2>(SOURCE(h)); const A2& b=std::get<A2>(SOURCE(g));
      std::vector<ind_t> find, perm; ind_t fi=0, la=0, co=0; std::vector<bool> ri, is; bool eq=false, ip=false, differ=false;
      err=attempt([&]{ find=a.find(cmp::eq,b); fi=a.first(cmp::eq,b); la=a.last(cmp::eq,b); co=a.count(cmp::eq,b); auto r=a.row_is(cmp::eq,b); ri=bools<Array2<bool>,bool>(r);
        auto q=a.is(which(c),b); is=bools<Array2<bool>,bool>(q); eq = h%2 ? a.is(b) : a==b; if (shp(a)==shp(b)){ ip=a.is_permutation(b); differ = a!=b; if (ip) perm=a.permutation_vector(b); } });
      e.f("find",find).f("first",fi).f("last",la).f("count",co).f("rowis",ri).f("is",is).f("equal",eq).f("isperm",ip).f("differ",differ).f("perm",perm); }
    else { // made from another array
      int g=num(); e.f("g",g); auto& src=SOURCE(g);
      if (op=="InPlace"){ std::string o=word(); e.f("op",o); // h op= g
        std::visit([&](auto& a, auto& b){ using A=std::decay_t<decltype(a)>; using B=std::decay_t<decltype(b)>; if constexpr (std::is_same_v<A,B>) err=attempt([&]{ if(o=="+") a+=b; else if(o=="-") a-=b; else a*=b; }); else BAD_SCRIPT("mixed"); }, SOURCE(h), src); }
      else if (op=="Append"){ int d=num(); e.f("d",d); std::visit([&](auto& a, auto& b){ using A=std::decay_t<decltype(a)>; using B=std::decay_t<decltype(b)>; if constexpr (std::is_same_v<A,B>) err=attempt([&]{ a.append((ind_t)d,b); }); else BAD_SCRIPT("mixed"); }, SOURCE(h), src); }
      else if (op=="SetFrom"){ int i=num(); e.f("i",i); std::visit([&](auto& a, auto& b){ using A=std::decay_t<decltype(a)>; using B=std::decay_t<decltype(b)>; if constexpr (std::is_same_v<A,B>) err=attempt([&]{ a.set((ind_t)i,b); }); else BAD_SCRIPT("mixed"); }, SOURCE(h), src); }
      else if (op=="Bin"){ int k=num(); std::string o=word(); e.f("k",k).f("op",o); auto& oth=SOURCE(k);
        if (src.index()==0) { const A2 &a=std::get<A2>(src), &b=std::get<A2>(oth); put<A2>(h,[&]{return o=="+"?a+b:o=="-"?a-b:a*b;},err); }
        else { const AN &a=std::get<AN>(src), &b=std::get<AN>(oth); put<AN>(h,[&]{return o=="+"?a+b:o=="-"?a-b:a*b;},err); } }
      else if (op=="BinScalar"){ std::string o=word(); int x=num(); bool left=num(); e.f("op",o).f("x",x).f("left",left); const A2& a=std::get<A2>(src);
        put<A2>(h,[&]{ if (left) return o=="+"?x+a:x*a; return o=="+"?a+x:o=="-"?a-x:a*x; },err); }
      else if (op=="Cat"){ int k=num(), d=num(); e.f("k",k).f("d",d); const A2 &a=std::get<A2>(src), &b=std::get<A2>(SOURCE(k)); put<A2>(h,[&]{return cat((ind_t)d,a,b);},err); }
      else if (op=="To2"){ const AN& a=std::get<AN>(src); put<A2>(h,[&]{return A2(a);},err); }
      else if (op=="ToN"){ U s=inds(); e.f("sh",s); const A2& a=std::get<A2>(src); put<AN>(h,[&]{return AN(a,s);},err); }
      else {
        int i=0,j=0; U idx; V sidx, mask;
        if (op=="View"||op=="Slice"||op=="ExtractOne"){ i=num(); e.f("i",i); }
        if (op=="Range"){ i=num(); j=num(); e.f("i",i).f("j",j); }
        if (op=="From"){ idx=inds(); e.f("v",idx); }
        if (op=="Extract"){ sidx=nums(); e.f("idx",sidx); }
        if (op=="Mask"){ mask=nums(); std::vector<bool> m; for (int x: mask) m.push_back(x!=0); e.f("mask",m); }
        bool contiguous=false, roworder=false;
        auto make=[&](auto& a){ using A=std::decay_t<decltype(a)>; constexpr bool is2=std::is_same_v<A,A2>; const A& b=a;
          put<A>(h,[&]()->A{
            if (op=="Copy") { A c(b); return c; }
            if (op=="ViewAll") return b.view();
            if (op=="View") return b.view((ind_t)i);
            if (op=="Range") return b.view((ind_t)i,(ind_t)j);
            if (op=="From") { if constexpr (is2) return b.view(two(idx)); else return b.view(idx); }
            if (op=="ExtractOne") return b.extract((ind_t)i);
            if (op=="Extract") { if (h%3==0) { // through an array of indices
                A ia = [&]{ if constexpr (is2) return A2(std::array<ind_t,2>{{(ind_t)sidx.size(),1}}); else return AN(U{(ind_t)sidx.size()}); }();
                for (size_t k=0;k<sidx.size();++k) ia[(ind_t)k]=sidx[k];
                return b.extract(ia); }
              if (h%3==1 && sidx.size()==2) return b.extract(std::array<int,2>{{sidx[0],sidx[1]}});
              if (std::all_of(sidx.begin(),sidx.end(),[](int x){return x>=0;}) && h%2) { std::vector<ind_t> q(sidx.begin(),sidx.end()); return b.extract(q); }
              return b.extract(sidx); }
            if (op=="Mask") { if (h%2) { std::vector<bool> m; for (int x: mask) m.push_back(x!=0); return b.extract(m); }
              if constexpr (is2) { Array2<bool> m(std::array<ind_t,2>{{(ind_t)mask.size(),1}}); for (size_t k=0;k<mask.size();++k) m[(ind_t)k]=mask[k]!=0; return b.extract(m); }
              else { Array<bool> m(U{(ind_t)mask.size()}); for (size_t k=0;k<mask.size();++k) m[(ind_t)k]=mask[k]!=0; return b.extract(m); } }
            if (op=="Decouple") return b.decouple();
            if (op=="Contig") return b.contiguous_copy();
            if (op=="RowContig") return b.contiguous_row_ordered_copy();
            if (op=="Conv") { if constexpr (is2) { Array2<double> d(b); return A2(d); } else { Array<double> d(b); return AN(d); } }
            if constexpr (!is2) { if (op=="Slice") return b.slice((ind_t)i); if (op=="Squeeze") return b.squeeze(); }
            BAD_SCRIPT("unknown operation "+op);
          }, err);
          if (!err) { const A& r=std::get<A>(live.at(h)); contiguous=r.is_contiguous(); roworder=r.is_row_ordered(); } };
        std::visit(make, src);
        e.f("contiguous",contiguous).f("row",roworder);
      }
    }
    e.f("error",err).raw("live",state());
  }
}
