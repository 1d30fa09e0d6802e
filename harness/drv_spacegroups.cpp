// The table of space groups, look-ups in it, and the classification of point groups.
#include "motions.hpp"
#include "spg_database.hpp"
#include "pointgroup.hpp"
#include "bravais.hpp"
using namespace brille; using namespace mo;
static std::vector<int> flat(const std::vector<M9>& r){ std::vector<int> v; for (auto& m: r) v.insert(v.end(),m.begin(),m.end()); return v; }
static std::vector<M9> unflat(const std::vector<int>& v, int n){ std::vector<M9> r; for (int i=0;i<n;++i){ M9 m; std::copy(v.begin()+9*i,v.begin()+9*i+9,m.begin()); r.push_back(m);} return r; }
static std::string pg(const Pointgroup& p){ return "["+std::to_string(p.get_number())+","+emit::str(p.get_symbol())+","+emit::str(p.get_schoenflies())+","+emit::str(p.get_holohedry_string())+","+emit::str(p.get_laue_string())+"]"; }
static std::vector<std::string> parts(const std::string& s){ std::vector<std::string> v(1); for (char c: s) if (c=='|') v.emplace_back(); else v.back()+=c; return v; }
int main(){
  std::string line;
  while (std::getline(std::cin, line)){
    if (line.empty()) continue;
    auto a=parts(line); const std::string op=a[0]; emit::Event e(op);
    if (op=="Entry"){ int i=std::stoi(a[1]); Spacegroup s(i); e.f("i",i).f("known",hall_number_ok(i)).f("number",s.number);
      if (!hall_number_ok(i)) continue;
      auto g=s.get_spacegroup_symmetry(); auto r=s.get_pointgroup_symmetry(), rt=s.get_pointgroup_symmetry(1);
      std::vector<int> buf(9*96,0); int n=get_pointgroup_rotations_hall_number(buf.data(),96,i,0); auto t0=unflat(buf,n); n=get_pointgroup_rotations_hall_number(buf.data(),96,i,1); auto t1=unflat(buf,n);
      bool small=false; try { std::vector<int> tiny(9*96,0); get_pointgroup_rotations_hall_number(tiny.data(),(int)t0.size()-1,i,0); } catch (const std::exception&) { small=true; }
      bool getters = s.get_hall_number()==s.hall_number && s.get_international_table_number()==s.number && s.get_pointgroup_number()==s.pointgroup_number && s.get_schoenflies_symbol()==s.schoenflies && s.get_hall_symbol()==s.hall_symbol
        && s.get_international_table_symbol()==s.international && s.get_international_table_full()==s.international_full && s.get_international_table_short()==s.international_short && s.get_choice()==s.choice && s.get_bravais_type()==s.bravais;
      auto p=s.get_pointgroup();
      e.f("schoenflies",s.schoenflies).f("hall",s.hall_symbol).f("international",s.international).f("full",s.international_full).f("short",s.international_short).f("choice",s.choice)
       .f("letter",std::string(1,bravais_letter(s.bravais))).f("class",s.pointgroup_number).f("self",s.hall_number).f("getters",getters)
       .raw("ops",mots(g.getallm())).f("opsletter",std::string(1,bravais_letter(g.getcentring()))).raw("rots",mats(r.getall())).raw("rotst",mats(rt.getall())).raw("table",mats(t0)).raw("tablet",mats(t1)).f("small",small)
       .f("group",std::vector<std::string>{p.get_symbol(),p.get_schoenflies(),p.get_holohedry_string(),p.get_laue_string()}).raw("found",pg(get_pointgroup(r))); }
    else if (op=="Hall") e.f("text",a[1]).f("found",hall_symbol_to_hall_number(a[1]));
    else if (op=="Name") e.f("text",a[1]).f("choice",a[2]).f("found",a[2].empty()?international_string_to_hall_number(a[1]):international_string_to_hall_number(a[1],a[2]));
    else if (op=="Text") e.f("text",a[1]).f("choice",a[2]).f("found",a[2].empty()?string_to_hall_number(a[1]):string_to_hall_number(a[1],a[2]));
    else if (op=="Number"){ int n=std::stoi(a[1]); e.f("n",n).f("choice",a[2]).f("found",a[2].empty()?international_number_to_hall_number(n):international_number_to_hall_number(n,a[2])); }
    else if (op=="Class"){ std::istringstream in(a[1]); int n=num(in); std::vector<M9> r; while (n--) r.push_back(mat(in));
      std::vector<int> isos, orders; for (auto& m: r){ isos.push_back(isometry_value(m.data())); orders.push_back(rotation_order(m.data())); }
      auto v=flat(r); auto kept=ptg_get_pointsymmetry(v.data(),(int)r.size()); std::vector<M9> ks; for (size_t i=0;i<kept.size();++i) ks.push_back(kept.get(i));
      PointSymmetry ps(get_unique_rotations(r,0));
      e.raw("rots",mats(r)).raw("kept",mats(ks)).raw("found",pg(get_pointgroup(ps))).raw("unique",mats(get_unique_rotations(r,0))).raw("uniquet",mats(get_unique_rotations(r,1))).f("isos",isos).f("orders",orders); }
    else if (op=="Change"){ int i=std::stoi(a[1]), twist=std::stoi(a[2]); auto r=Spacegroup(i).get_pointgroup_symmetry().getall(); if (twist) std::rotate(r.begin(),r.begin()+twist%r.size(),r.end());
      auto v=flat(r); int t[9]; auto p=ptg_get_transformation_matrix(t,v.data(),(int)r.size()); M9 m; for (int i=0;i<3;++i) for (int j=0;j<3;++j) m[3*i+j]=t[3*j+i];
      e.f("i",i).f("found",p.get_number()).raw("m",m9(m)); }
    else BAD_SCRIPT(op);
  }
}
