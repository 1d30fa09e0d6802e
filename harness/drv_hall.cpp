// Decodes texts as Hall symbols.
#include "motions.hpp"
#include "hall_symbol.hpp"
#include "bravais.hpp"
#include <set>
using namespace brille; using namespace mo;
static std::string chars(const std::string& s){ std::vector<std::string> v; for (char c: s) v.push_back(std::string(1,c)); return emit::val(v); }
// is the closure larger than top? (decides only whether to ask for it)
static bool larger(const std::vector<Mot>& gens, size_t top){
  typedef std::array<int,12> K; std::vector<K> g; for (auto& m: gens){ K k; auto W=m.getr(); auto w=m.gett(); for (int i=0;i<9;++i) k[i]=W[i]; for (int i=0;i<3;++i) k[9+i]=((int)std::lround(w[i]*24)%24+24)%24; g.push_back(k); }
  K e{{1,0,0,0,1,0,0,0,1,0,0,0}}; std::set<K> all{e}; std::vector<K> now{e};
  while (!now.empty()){ std::vector<K> next; for (auto& x: now) for (auto& a: g){ K z{};
      for (int i=0;i<3;++i){ for (int j=0;j<3;++j) for (int k=0;k<3;++k) z[3*i+j]+=a[3*i+k]*x[3*k+j]; int t=a[9+i]; for (int k=0;k<3;++k) t+=a[3*i+k]*x[9+k]; z[9+i]=((t%24)+24)%24; }
      if (all.insert(z).second) next.push_back(z); if (all.size()>top) return true; } now=next; }
  return false;
}
static void parts(emit::Event& e, HallSymbol& h, bool valid){
  std::vector<Mot> gens, group; bool err=false, big=false, inv=false;
  if (valid) try { Symmetry s=h.get_generators(); gens=s.getallm(); big=larger(gens,400); if (!big){ Symmetry g=s.generate(); group=g.getallm(); inv=g.has_space_inversion(); } } catch (const std::exception&) { err=true; }
  auto t = valid ? h.to_ascii() : std::string("P"); HallSymbol r; bool ok=r.from_ascii(t);
  bool same = ok && !err; if (same && valid) try { auto a=r.get_generators(); same = a==h.get_generators(); } catch (const std::exception&) { same=false; }
  e.raw("gens",mots(gens)).raw("group",mots(group)).f("error",err).f("big",big).f("inversion",inv).raw("rewritten",chars(t)).f("reread",same)
   .f("letter",std::string(1,valid?bravais_letter(h.getl()):'?'));
}
int main(){
  std::string line;
  while (std::getline(std::cin, line)){
    if (line.empty()) continue;
    if (line[0]=='#'){                         // parts: letter cs shiftless list of "n tran axis"
      std::istringstream in(line.substr(1)); std::string L; int cs,k; in>>L>>cs>>k; emit::Event e("Parts"); std::vector<SeitzSymbol> ss;
      for (int i=0;i<k;++i){ int n; std::string t,a; in>>n>>t>>a; if (t==".") t=""; if (a==".") a=""; SeitzSymbol s; if (i%2){ s=SeitzSymbol(n,t,a); } else { s.set_order(n); s.set_tran(t); s.set_axis(a); } ss.push_back(s); }
      HallSymbol h; h.setl(L[0],cs); for (auto& s: ss) h.addsymbol(s); if (k%2){ HallSymbol g(h.getl(),cs,ss); h=g; } else if (k==2){ HallSymbol g(h.getl()); g.setcs(cs); g.setsymbols(ss); h=g; }
      auto t=h.to_ascii(); bool v=h.validate(); e.raw("rewritten",chars(t)).f("valid",v).f("letter",L).f("cs",cs!=0); std::vector<Mot> gens; if (v) gens=h.get_generators().getallm(); e.raw("gens",mots(gens)); continue; }
    emit::Event e("Symbol"); std::string text=line.substr(1);  // after a leading mark that keeps spaces
    HallSymbol h; bool v=h.from_ascii(text); HallSymbol g(text);
    e.raw("text",chars(text)).f("valid",v).f("again",g.validate());
    HallSymbol& use = text.size()%2 ? h : g; parts(e,use,v);
  }
}
