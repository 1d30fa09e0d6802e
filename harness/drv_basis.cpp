// Atoms of crystals and their symmetry.
#include <cassert>
#include "gram.hpp"
#include "spg_database.hpp"
#include "phonon.hpp"
#include <memory>
using namespace brille; using namespace brille::lattice; using namespace gr;
typedef Lattice<double> Lat; typedef std::array<long long,3> L3;
static std::unique_ptr<Lat> lat; static std::vector<L3> p240; static std::vector<ind_t> typ; static std::string hall; static G6 g;
static const double Q=240, NANO=1e9;
static std::array<double,3> at(size_t k){ auto& x=p240[k]; return {x[0]/Q,x[1]/Q,x[2]/Q}; }
static std::vector<std::array<double,3>> all(){ std::vector<std::array<double,3>> v; for (size_t k=0;k<p240.size();++k) v.push_back(at(k)); return v; }
static std::string two(const std::tuple<bool,ind_t>& t){ return std::string("[")+(std::get<0>(t)?"true":"false")+","+std::to_string(std::get<1>(t))+"]"; }
static const double TOL=1e-10; static const int NT=1000;
static Lat make(const Basis& b, bool snap){ auto l=lens(g); return Lat(LengthUnit::angstrom,l,angs(g,AngleUnit::radian),hall,b,snap,AngleUnit::radian); }
int main(){
  std::string line, op;
  while (std::getline(std::cin, line)){
    if (line.empty()) continue;
    std::istringstream in(line); in>>op; auto n=[&](){ return mo::num(in); };
    if (op=="Reset"){ lat.reset(); p240.clear(); typ.clear(); emit::Event("Reset"); continue; }
    if (op!="Crystal" && !lat) BAD_SCRIPT("no crystal");
    emit::Event e(op);
    try {
      if (op=="Crystal"){ // hall, metric, most atoms, how many orbits, whether to leave one atom out
        p240.clear(); typ.clear(); int i=n(); g=g6(in); int most=n(), ns=n(), spoil=n(); Spacegroup s(i); hall=s.hall_symbol; auto sym=s.get_spacegroup_symmetry(); int iq=(int)Q;
        for (int a=0;a<ns;++a){ int t=n(), shift=n(); std::array<int,3> p={n(),n(),n()}; std::vector<L3> orb;
          for (ind_t k=0;k<sym.size();++k){ auto M=sym.getm(k); auto W=M.getr(); auto t0=M.gett(); L3 x; for (int r=0;r<3;++r){ x[r]=(long long)std::nearbyint(Q*t0[r]); for (int q=0;q<3;++q) x[r]+=W[3*r+q]*p[q]; x[r]=((x[r]%iq)+iq)%iq; }
            bool has=false; for (auto& o: orb) has=has||o==x; for (auto& o: p240) has=has||((o[0]-x[0])%iq==0&&(o[1]-x[1])%iq==0&&(o[2]-x[2])%iq==0); if (!has) orb.push_back(x); }
          if ((int)(p240.size()+orb.size())<=most) for (size_t k=0;k<orb.size();++k){ auto x=orb[k]; if (shift) for (int r=0;r<3;++r) x[r]+=iq*(((int)k*(r+1)+shift)%3-1); p240.push_back(x); typ.push_back((ind_t)t); } }
        // the atoms in some other order
        for (size_t k=1;k<p240.size();++k) if ((k*k+i)%3==0){ std::swap(p240[k],p240[k-1]); std::swap(typ[k],typ[k-1]); }
        if (spoil && p240.size()>1){ p240.pop_back(); typ.pop_back(); }
        lat=std::make_unique<Lat>(make(Basis(all(),typ),false)); std::string o="["; for (size_t k=0;k<p240.size();++k) o+=(k?",":"")+std::string("{\"p\":")+emit::val(p240[k])+",\"t\":"+std::to_string(typ[k])+"}";
        auto ls=lat->spacegroup_symmetry(); std::vector<mo::Mot> ms; for (ind_t k=0;k<ls.size();++k) ms.push_back(ls.getm(k)); e.f("i",i).raw("atoms",o+"]").raw("ops",mo::mots(ms)); }
      else if (op=="Maps"){ auto b=lat->basis(); auto ls=lat->spacegroup_symmetry(); std::string o="["; for (size_t k=0;k<b.size();++k){ o+=k?",[":"["; for (ind_t i=0;i<ls.size();++i) o+=(i?",":"")+two(b.equivalent_after_operation(k,ls.getm(i),TOL,NT)); o+="]"; } e.raw("got",o+"]"); }
      else if (op=="Point"){ auto m=mo::mat(in); auto b=lat->basis(); std::string o="["; for (size_t k=0;k<b.size();++k) o+=(k?",":"")+two(b.equivalent_after_operation(k,m,TOL,NT)); e.raw("m",mo::m9(m)).raw("got",o+"]"); }
      else if (op=="Where"){ int t=n(), k=n(); L3 p; for (auto& x: p) x=n(); if (k>=0 && !p240.empty()) for (int r=0;r<3;++r) p[r]+=p240[k%p240.size()][r]; if (t<0) t=p240.empty()?0:(int)typ[k%p240.size()]; auto b=lat->basis(); std::array<double,3> x={p[0]/Q,p[1]/Q,p[2]/Q};
        auto a=b.equivalent_to((ind_t)t,x,TOL,NT); e.f("t",t).f("p",p).f("found",std::get<0>(a)).f("at",std::get<1>(a)); if (b.size()){ auto c=b.closest_to((ind_t)t,x,TOL,NT); e.f("near",std::get<0>(c)).f("nat",std::get<1>(c)).raw("d",rv(std::get<2>(c),Q)); } else e.f("near",false).f("nat",0).raw("d","[0,0,0]"); }
      else if (op=="Gamma"){ int tr=n(); e.f("tr",tr); auto ps=lat->pointgroup_symmetry(); auto sp=lat->spacegroup_symmetry(); if (tr){ ps=ps.add_space_inversion(); sp=sp.add_space_inversion(); }
        std::vector<mo::Mot> ms; for (ind_t k=0;k<sp.size();++k) ms.push_back(sp.getm(k)); e.raw("ps",mo::mats(ps.getall())).raw("motions",mo::mots(ms));
        GammaTable T(true,*lat,tr,TOL,NT); std::string o="[", v="["; size_t na=lat->basis().size(); for (size_t k=0;k<na;++k){ o+=k?",[":"["; v+=k?",[":"["; for (size_t r=0;r<ps.size();++r){ o+=(r?",":"")+std::to_string(T.F0(k,r)); auto x=T.vector(k,r); v+=(r?",":"")+rv(std::vector<double>{x.val(0,0),x.val(0,1),x.val(0,2)},Q); } o+="]"; v+="]"; }
        e.raw("where",o+"]").raw("vecs",v+"]").f("threw",false); }
      else if (op=="Snap"){ bool l=n(); std::vector<std::array<int,3>> d(p240.size()); bool all_=n(); std::array<int,3> d0={n(),n(),n()}; int which=n(); for (size_t k=0;k<d.size();++k) for (int r=0;r<3;++r) d[k][r]= all_||((int)k==which%(int)d.size())?d0[r]*(all_?(int)((k*7+r)%5)-2:1):0;
        auto pos=all(); for (size_t k=0;k<pos.size();++k) for (int r=0;r<3;++r) pos[k][r]+=d[k][r]/NANO; e.f("lattice",l?1:0).f("d",d); Basis b(pos,typ); bool ok=false;
        if (l){ try { auto x=make(b,true); b=x.basis(); ok=true; } catch (const std::exception& w){ e.f("why",std::string(w.what()).substr(0,60)); } } else { auto ls=lat->spacegroup_symmetry(); ok=b.snap_to(ls.getallm(),TOL,NT); }
        std::string o="["; for (size_t k=0;k<pos.size();++k){ auto x=b.position(k); auto y=at(k); o+=k?",[":"["; for (int r=0;r<3;++r) o+=(r?",":"")+std::to_string((long long)std::llround((x[r]-y[r])*NANO)); o+="]"; } e.f("ok",ok).raw("got",o+"]"); }
      else BAD_SCRIPT("op "+op);
    } catch (const std::exception& x){ e.f("threw",true).f("why",std::string(x.what()).substr(0,120)); }
  }
}
