// Records how centring letters, codes and units convert, from the library's own functions.
#include "emit.hpp"
#include "lattice_dual.hpp"
#include "hall_symbol.hpp"
#include "primitive.hpp"
using namespace brille;
using emit::Event;
static long long det3(const std::array<int,9>& m){
  return (long long)m[0]*(m[4]*m[8]-m[5]*m[7]) - (long long)m[1]*(m[3]*m[8]-m[5]*m[6]) + (long long)m[2]*(m[3]*m[7]-m[4]*m[6]);
}
int main(){
  std::string line;
  while (std::getline(std::cin, line)){
    std::istringstream in(line);
    std::string op; if (!(in >> op)) continue;
    if (op == "Reset") { Event("Reset"); }
    else if (op == "Code"){
      int k; in >> k; auto b = static_cast<Bravais>(k);
      char l = bravais_letter(b);
      HallSymbol h; auto back = h.setl(l, false);
      Event e("Code");
      e.f("code", k).f("known", bravais_is_known(b)).f("letter", std::string(1, l)).f("back", (int)back).f("name", bravais_string(b));
      if (bravais_is_known(b)){
        PrimitiveTransform P(b);
        Symmetry gens = HallSymbol(std::string(1,l) + " 1").get_generators();
        e.f("invdet", det3(P.get_invP())).f("det6", det3(P.get_6P())).f("does", P.does_anything() && !P.does_nothing())
         .f("sayspoints", gens.generate().size());
      } else {
        bool r1=false, r2=false; PrimitiveTransform P(b);
        try { P.get_6P(); } catch (const std::exception&) { r1 = true; }
        try { P.get_invP(); } catch (const std::exception&) { r2 = true; }
        e.f("refused", r1 && r2);
      }
    } else if (op == "Char"){
      int c, cs; in >> c >> cs;
      HallSymbol h; auto b = h.setl((char)c, cs != 0);
      HallSymbol g; g.from_ascii(std::string(cs ? "-" : "") + (char)c + " 1");
      Event("Char").f("ch", std::string(1,(char)c)).f("code", (int)b).f("same", (int)h.getl()).f("hall", (int)g.getl()).f("cs", cs != 0).f("csgot", g.getl()==Bravais::_ ? cs != 0 : Symmetry(g.get_generators()).generate().has_space_inversion());
    } else if (op == "Cell"){
      std::string rest; int k; in >> k; std::getline(in, rest); rest = rest.substr(1);
      HallSymbol h(rest);
      if (!h.validate()) BAD_SCRIPT("hall " << rest);
      auto s = h.get_generators().generate();
      std::vector<std::array<long long,3>> tr;
      for (size_t i=0;i<s.size();++i){
        auto m = s.getr(i); 
        if (m == std::array<int,9>{1,0,0,0,1,0,0,0,1}){
          auto w = s.gett(i); std::array<long long,3> t;
          for (int j=0;j<3;++j) { auto r = emit::scaled(w[j], 6, 1e-6); t[j] = r.ok ? ((r.i % 6)+6)%6 : 99; }
          tr.push_back(t);
        }
      }
      lattice::Impl<double> L(LengthUnit::angstrom, {3.,3.,3.}, {90.,90.,90.}, s, Basis(), false, AngleUnit::degree);
      Event("Cell").f("code", k).f("trans", tr).f("found", (int)s.getcentring()).f("lattice", (int)L.bravais());
    } else if (op == "Angles"){
      std::string unit; double a[3], b[3]; in >> unit >> a[0] >> a[1] >> a[2] >> b[0] >> b[1] >> b[2]; // degrees, numbers given
      int real; in >> real; std::string given; in >> given;
      AngleUnit u = unit=="radian" ? AngleUnit::radian : unit=="degree" ? AngleUnit::degree : unit=="pi" ? AngleUnit::pi : AngleUnit::not_provided;
      LengthUnit lu = real ? LengthUnit::angstrom : LengthUnit::inverse_angstrom;
      Event e("Angles");
      e.f("unit", unit).f("given", given);
      std::array<long long,3> d, x, y, z; double mx = 0;
      lattice::Impl<double> L(lu, {3.,4.,5.}, {b[0],b[1],b[2]}, std::string("P 1"), Basis(), true, u);
      auto ad = L.angles(lu, AngleUnit::degree), ar = L.angles(lu, AngleUnit::radian), ap = L.angles(lu, AngleUnit::pi);
      for (int i=0;i<3;++i){
        mx = std::max(mx, b[i]);
        d[i] = std::llround(a[i]*1e6); x[i] = std::llround(ad[i]*1e6); y[i] = std::llround(ar[i]*180/3.14159265358979323846*1e6); z[i] = std::llround(ap[i]*180*1e6);
      }
      e.f("maxmicro", std::llround(mx*1e6)).f("deg", d).f("asdegree", x).f("asradian", y).f("aspi", z).f("real", real != 0);
    } else if (op == "Refuse"){
      std::string what; in >> what; bool r = false;
      try {
        if (what == "negative") lattice::Impl<double> L(LengthUnit::angstrom, {3.,4.,5.}, {-90.,90.,90.}, std::string("P 1"));
        else if (what == "flat") lattice::Impl<double> L(LengthUnit::angstrom, {3.,4.,5.}, {120.,120.,120.}, std::string("P 1"), Basis(), true, AngleUnit::degree);
        else if (what == "imaginary") lattice::Impl<double> L(LengthUnit::angstrom, {3.,4.,5.}, {150.,150.,150.}, std::string("P 1"), Basis(), true, AngleUnit::degree);
        else if (what == "unit") lattice::Impl<double> L(LengthUnit::real_lattice, {3.,4.,5.}, {90.,90.,90.}, std::string("P 1"));
        else BAD_SCRIPT(what);
      } catch (const std::exception&) { r = true; }
      Event("Refuse").f("what", what).f("refused", r);
    } else BAD_SCRIPT("op " << op);
  }
}
