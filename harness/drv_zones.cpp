// Brillouin zones of lattices given by the integer metric of their reciprocal lattice.
#include <cassert>
#include "gram.hpp"
#include "spg_database.hpp"
#include "transform.hpp"
#include "bz.hpp"
#include <memory>
#include <map>
using namespace brille; using namespace brille::lattice; using namespace gr;
typedef Lattice<double> Lat; typedef LVec<double> LV;
static std::unique_ptr<BrillouinZone> bz; static std::unique_ptr<Lat> lat; static G6 g; static double scale;
static LengthUnit QU=LengthUnit::inverse_angstrom;
static std::string ints(const bArray<double>& v, double s=1){ return rarr(v,s); }
template<class T> static std::string hkl(const LVec<T>& v, double s=1){ std::string o="["; for (ind_t i=0;i<v.size(0);++i){ o+=i?",":""; std::vector<long long> k; for (ind_t j=0;j<3;++j) k.push_back(ri((double)v.val(i,j),s)); o+=emit::val(k);} return o+"]"; }
static std::string faces(const std::vector<std::vector<ind_t>>& f){ std::string o="["; for (size_t i=0;i<f.size();++i){ o+=i?",":""; o+=emit::val(f[i]); } return o+"]"; }
static std::string sset(const std::vector<bool>& v){ std::vector<int> o; for (auto x: v) o.push_back(x?1:0); return emit::val(o); }
// the smallest integer covector in the direction of the normal, or zeros
static std::array<long long,3> covector(const LV& n){
  double G[3][3]={{(double)g[0],(double)g[5],(double)g[4]},{(double)g[5],(double)g[1],(double)g[3]},{(double)g[4],(double)g[3],(double)g[2]}}, m[3]={0,0,0}, top=0;
  for (int i=0;i<3;++i){ for (int j=0;j<3;++j) m[i]+=G[i][j]*n.val(0,j); top=std::max(top,std::fabs(m[i])); }
  if (!(top>0)) return {0,0,0};
  for (int k=1;k<=6000;++k){ bool ok=true; std::array<long long,3> o; for (int i=0;i<3;++i){ double y=m[i]/top*k, r=std::nearbyint(y); o[i]=(long long)r; ok=ok&&std::fabs(y-r)<1e-8*k; } if (ok) return o; }
  return {0,0,0}; }
static std::array<double,3> turn(const bArray<double>& v, const std::vector<ind_t>& f, size_t k){ double a[3],b[3]; size_t n=f.size(), h=f[(k+n-1)%n], i=f[k], j=f[(k+1)%n];
  for (int t=0;t<3;++t){ a[t]=v.val(i,t)-v.val(h,t); b[t]=v.val(j,t)-v.val(i,t); }
  double la=std::sqrt(a[0]*a[0]+a[1]*a[1]+a[2]*a[2]), lb=std::sqrt(b[0]*b[0]+b[1]*b[1]+b[2]*b[2]); if (la*lb==0) return {0,0,0};
  return {(a[1]*b[2]-a[2]*b[1])/la/lb,(a[2]*b[0]-a[0]*b[2])/la/lb,(a[0]*b[1]-a[1]*b[0])/la/lb}; }
// the corners of each face: points in the middle of a straight edge (left by rounding where planes meet in a corner) are no corners
static std::vector<std::vector<ind_t>> corners(const bArray<double>& v, const std::vector<std::vector<ind_t>>& fs){
  std::vector<std::vector<ind_t>> o;
  for (auto f: fs){ for (size_t k=0;k<f.size();){ auto t=turn(v,f,k); if (t[0]*t[0]+t[1]*t[1]+t[2]*t[2]<1e-16) f.erase(f.begin()+k); else ++k; } if (f.size()>2) o.push_back(f); }
  return o; }
static int renumber(std::vector<std::vector<ind_t>>& fs){ std::map<ind_t,ind_t> m; for (auto& f: fs) for (auto x: f) m.emplace(x,0); ind_t n=0; for (auto& k: m) k.second=n++; for (auto& f: fs) for (auto& x: f) x=m[x]; return (int)n; }
static bool outward(const BrillouinZone::poly_t& p){ auto v=p.vertices().xyz(); auto c=p.centroid().xyz(); bool ok=true; 
  const auto pf=p.faces(); const auto fs=corners(v,pf.faces());
  for (auto& f: fs) for (size_t k=0;k<f.size();++k){ auto t=turn(v,f,k); double d=0; for (int i=0;i<3;++i) d+=t[i]*(v.val(f[k],i)-c.val(0,i)); ok=ok&&d>0; }
  return ok; }
static LV pts(std::istream& in, const Lat& l, int n, double m){ LV v(QU,l,bArray<double>(n,3u)); for (int i=0;i<n;++i) for (int j=0;j<3;++j) v.val(i,j)=mo::num(in)/m; return v; }
static std::string echo(const LV& v, double m){ return hkl(v,m); }
int main(){
  std::string line, op;
  while (std::getline(std::cin, line)){
    if (line.empty()) continue;
    std::istringstream in(line); in>>op; auto n=[&](){ return mo::num(in); };
    if (op=="Reset"){ bz.reset(); lat.reset(); emit::Event("Reset"); continue; }
    if (op!="Zone" && !bz) continue;                  // no irreducible zone was found
    if (op=="Zone"){ bz.reset(); lat.reset(); }
    emit::Event e(op);
    try {
    if (op=="Zone"){ // hall, metric, how, scale, primitive, time reversal, wedge, divide primitive, extent, vertex denominator
      int i=n(); g=g6(in); std::string how; in>>how; int sn=n(), sd=n(); scale=(double)sn/sd; BrillouinZoneConfig c; int pr=n(), trv=n(), w=n(), dp=n(), ext=n(), D=n(); double F=n();
      c.primitive(pr); c.time_reversal(trv); c.wedge_search(w); c.divide_primitive(dp); c.divide_extent(ext);
      Spacegroup s(i); auto l=lens(g); for (auto& x: l) x*=scale;
      Lat t(QU,l,angs(g,AngleUnit::radian),s.hall_symbol,Basis(),true,AngleUnit::radian);
      if (how=="real") t=Lat(LengthUnit::angstrom,t.lengths(LengthUnit::angstrom),t.angles(LengthUnit::angstrom,AngleUnit::degree),s.hall_symbol,Basis(),true,AngleUnit::degree);
      if (how=="cols") t=Lat(LengthUnit::angstrom,t.real_basis_vectors(),MatrixVectors::column,s.hall_symbol,Basis(),true);
      std::vector<long long> gv(g.begin(),g.end());
      e.f("i",i).raw("g",emit::val(std::vector<int>{g[0],g[5],g[4],g[5],g[1],g[3],g[4],g[3],g[2]})).f("how",how).f("prim",pr).f("tr",trv).f("search",w).f("dp",dp).f("ext",ext).f("D",D).f("F",(int)F);
      lat=std::make_unique<Lat>(t);
      bz=std::make_unique<BrillouinZone>(t,c);
      auto p=bz->get_polyhedron(); double V=std::sqrt(detg(g))*scale*scale*scale;
      auto taus=bz->get_points();
      bool conv=taus.lattice().is_same(t)&&bz->get_vertices().lattice().is_same(t)&&bz->get_normals().lattice().is_same(t)&&bz->get_lattice().is_same(t);
      e.f("ok",true).f("conv",conv).f("isprim",bz->isprimitive()).raw("tau",hkl(taus,2)).raw("faces",faces(bz->get_vertices_per_face())).raw("verts",hkl(bz->get_vertices(),D?D:1)).f("nv",(int)bz->get_vertices().size(0)).f("vc",(int)bz->vertices_count()).f("fc",(int)bz->faces_count());
      e.raw("fpv",faces(bz->get_faces_per_vertex())).f("vol",ri(p.volume()/V)).raw("centroid",hkl(p.centroid(),1)).f("outward",outward(p));
      // normals are unit vectors along the face vectors
      auto nn=bz->get_normals(); bool along=true; for (ind_t k=0;k<nn.size(0);++k){ double a=dot(nn.view(k),taus.view(k)).val(0,0), b=taus.norm(k)*nn.norm(k); along=along&&std::fabs(a-b)<1e-9*b&&std::fabs(nn.norm(k)-1)<1e-9; } e.f("along",along);
      auto ir=bz->get_ir_polyhedron(), half=bz->get_ir_polyhedron(false); auto ps=bz->get_pointgroup_symmetry();
      e.raw("irvol",std::to_string(ri(ir.volume()/V,F))).f("mirrored",std::fabs(ir.volume()-half.volume())>1e-6*ir.volume()).raw("ops",mo::mats(ps.getall()));
      std::string wn="["; auto wedge=bz->get_ir_wedge_normals(); bool known=true; for (ind_t k=0;k<wedge.size(0);++k){ auto m=covector(wedge.view(k)); known=known&&(m[0]||m[1]||m[2]); wn+=(k?",":"")+emit::val(std::vector<long long>(m.begin(),m.end())); } e.raw("wedge",wn+"]").f("known",known);
      auto cf=corners(bz->get_ir_vertices().xyz(),bz->get_ir_vertices_per_face()); int cn=renumber(cf); e.raw("irfaces",faces(cf)).f("irnv",cn).f("iroutward",outward(half));
      auto iv=bz->get_ir_vertices(); auto in1=bz->isinside(iv); auto in2=bz->isinside_wedge_outer(iv); bool all=true; for (size_t k=0;k<in1.size();++k) all=all&&in1[k]&&in2[k]; e.f("irin",all);
      e.f("trflag",bz->add_time_reversal());
    } else {
      int m=n(), thr=n(), np=n(); e.f("m",m).f("thr",thr);
      Lat where=*lat; if (op=="MoveP"||op=="MemberP") where=lat->primitive();
      if (op=="Foreign"){ auto l=lens(g); for (auto& x: l) x*=scale*1.5; where=Lat(QU,l,angs(g,AngleUnit::radian),std::string("P 1"),Basis(),false,AngleUnit::radian); }
      LV Q=pts(in,where,np,m); e.raw("Q",echo(Q,m)); LV keep(QU,where,bArray<double>(0u,3u)); auto q0=Q.decouple();
      if (op=="Member"||op=="MemberP"){ e.raw("inside",sset(bz->isinside(Q)));
        if (op=="Member"){ e.raw("wedge",sset(bz->isinside_wedge(Q))).raw("wedgeo",sset(bz->isinside_wedge_outer(Q))).raw("poly",sset(bz->get_polyhedron().contains(Q))).raw("ir",sset(bz->get_ir_polyhedron(false).contains(Q))); }
      } else if (op=="Move"||op=="MoveP"){ LV q(QU,where,0u); LVec<int> tau(QU,where,0u); bool r=bz->moveinto(Q,q,tau,thr); e.f("r",r).raw("q",hkl(q,m)).raw("tau",hkl(tau)).f("of",q.lattice().is_same(where)&&tau.lattice().is_same(where));
      } else if (op=="Ir"){ LV q(QU,where,0u); LVec<int> tau(QU,where,0u); std::vector<size_t> R,I; bool r=bz->ir_moveinto(Q,q,tau,R,I,thr); auto ps=bz->get_pointgroup_symmetry(); std::vector<mo::M9> Rm,Im; for (auto x: R) Rm.push_back(ps.get(x)); for (auto x: I) Im.push_back(ps.get(x));
        e.f("r",r).raw("q",hkl(q,m)).raw("tau",hkl(tau)).raw("R",mo::mats(Rm)).raw("I",mo::mats(Im)).f("of",q.lattice().is_same(where)&&tau.lattice().is_same(where)); e.raw("irin",sset(bz->get_ir_polyhedron(false).contains(q)));
      } else if (op=="Wedge"){ LV q(QU,where,0u); std::vector<size_t> R; bool r=bz->ir_moveinto_wedge(Q,q,R,thr); auto ps=bz->get_pointgroup_symmetry(); std::vector<mo::M9> Rm; for (auto x: R) Rm.push_back(ps.get(x)); e.f("r",r).raw("q",hkl(q,m)).raw("R",mo::mats(Rm));
      } else if (op=="Foreign"){ std::vector<int> refused; auto ask=[&](auto f){ try { f(); refused.push_back(0); } catch (const std::exception&) { refused.push_back(1); } };
        LV q(QU,where,0u); LVec<int> tau(QU,where,0u); std::vector<size_t> R,I;
        ask([&]{ bz->moveinto(Q,q,tau,thr); }); ask([&]{ bz->ir_moveinto(Q,q,tau,R,I,thr); }); ask([&]{ bz->ir_moveinto_wedge(Q,q,R,thr); }); ask([&]{ (void)bz->isinside(Q); }); ask([&]{ (void)bz->isinside_wedge(Q); }); e.f("refused",refused);
      } else BAD_SCRIPT("op "+op);
      e.f("kept",hkl(Q,m)==hkl(q0,m)).f("threw",false);
    }
    } catch (const std::exception& x){ if (op=="Zone") e.f("ok",false); else e.f("threw",true); e.f("why",std::string(x.what()).substr(0,200)); }
  }
}
