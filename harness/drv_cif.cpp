// Composes, inverts, compares, writes and reads motions.
#include "motions.hpp"
#include <iomanip>
using namespace brille; using namespace mo;
static std::istringstream in;
static int n(){ return num(in); }
static std::string chars(const std::string& s){ std::vector<std::string> v; for (char c: s) v.push_back(std::string(1,c)); return emit::val(v); }
static std::string back24(const std::array<double,3>& t, double u){ std::vector<long long> v; for (double x: t){ auto s=emit::scaled(x,u,1); v.push_back(s.ok?s.i:2000000000); } return emit::val(v); }
static std::string rest(){ std::string s; std::getline(in>>std::ws,s); for (auto& c: s) if (c=='_') c=' '; return s; }
int main(){
  std::string line, op; std::vector<Mot> h;
  while (std::getline(std::cin, line)){
    if (line.empty()) continue;
    in=std::istringstream(line); in>>op;
    if (op=="Reset"){ h.clear(); emit::Event("Reset"); continue; }
    emit::Event e(op);
    if (op=="Make"){ auto keep=line.substr(5); Mot m=motion(in); int how=n(); std::istringstream again(keep); M9 W=mat(again); V3 w=vec(again);
      e.raw("given","["+m9(W)+","+emit::val(w)+"]");
      auto t=m.gett(); Mot k = how==1 ? Mot(std::make_pair(m.getr(),t)) : how==2 && w==V3{{0,0,0}} ? Mot(W) : how==3 && W==M9{{1,0,0,0,1,0,0,0,1}} ? Mot(t) : m;
      e.raw("m",mot(k)); h.push_back(k); }
    else if (op=="Times"){ int a=n(), b=n(); e.f("a",a).f("b",b); Mot m=h.at(a)*h.at(b); e.raw("m",mot(m)); h.push_back(m); }
    else if (op=="Inverse"){ int a=n(); e.f("a",a); Mot m=h.at(a).inverse(); e.raw("m",mot(m)); h.push_back(m); }
    else if (op=="Ask"){ int a=n(), b=n(); V3 v=vec(in); e.f("a",a).f("b",b).f("v",v); const Mot &x=h.at(a), &y=h.at(b);
      std::array<double,3> p{{v[0]/24.,v[1]/24.,v[2]/24.}}; Symmetry s; s.add(x);
      e.f("eq",x==y).f("ne",x!=y).f("eqm",x.equal_matrix(y.getr())).f("self",x==x && y==y && !(x!=x)).raw("point",t3(x.move_point(p))).raw("vector",t3(x.move_vector(p))).raw("axial",t3(x.move_axial(p)))
       .f("idr",x.has_identity_rotation()).f("idt",x.has_identity_translation()).f("order",s.order(0)); }
    else if (op=="Write"){ int a=n(); e.f("a",a); auto t=h.at(a).to_ascii(); Mot m(t); e.raw("text",chars(t)).raw("back",mot(m)).f("same",m==h.at(a)); }
    else if (op=="Read"){ int how=n(); auto t=rest(); e.raw("text",chars(t)); Mot m({0,0,0,0,0,0,0,0,0},{0,0,0}); bool err=false;
      try { if (how==0) m=Mot(t); else if (how==1) m.from_ascii(t); else { Symmetry s; s.add(t); m=s.getm(0); } } catch (const std::exception&) { err=true; }
      e.f("error",err).raw("m",mot(m)); h.push_back(m); }
    else if (op=="ReadMany"){ auto t=rest(); e.raw("text",chars(t)); bool err=false; Symmetry s; PointSymmetry p;
      try { s=Symmetry(t); p.add(t); } catch (const std::exception&) { err=true; }
      e.f("error",err).raw("ms",mots(s.getallm())).raw("rs",mats(p.getall())); }
    else if (op=="Decimal"||op=="Ratio"){ M9 W=mat(in); std::array<double,3> w; std::vector<std::pair<int,int>> ws; for (auto& x: w){ int a=n(), b=n(); x=double(a)/double(b); ws.push_back({a,b}); }
      Mot m(W,w); auto t=m.to_ascii(); Mot k(t); auto u=k.gett(); double worst=0; for (int i=0;i<3;++i) worst=std::max(worst,std::fabs(u[i]-w[i]));
      if (op=="Ratio") e.raw("text",chars(t)).raw("W",m9(W)).f("w",ws).raw("back",back24(u,24000)); else e.f("back",(long long)std::floor(std::min(worst,1.)*1e9)).f("matrix",k.getr()==W);
      e.f("same",k==m); }
    else BAD_SCRIPT(op);
  }
}
