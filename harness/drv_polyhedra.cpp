// Polyhedra cut by planes, in Cartesian coordinates or in the units of a (skewed) lattice.
#include <cassert>
#include "gram.hpp"
#include "polyhedron_flex.hpp"
#include "pointsymmetry.hpp"
#include <memory>
#include <random>
using namespace brille; using namespace brille::lattice; using namespace brille::polyhedron; using namespace gr;
typedef Lattice<double> Lat;
static const double U=12;
static std::unique_ptr<Lat> lat; static LengthUnit LU; static double cell=1;
template<class A> A make(const std::vector<D3>& v);
template<> bArray<double> make(const std::vector<D3>& v){ bArray<double> o((ind_t)v.size(),3u); for (ind_t i=0;i<v.size();++i) for (ind_t j=0;j<3;++j) o.val(i,j)=v[i][j]; return o; }
template<> LVec<double> make(const std::vector<D3>& v){ return LVec<double>(LU,*lat,make<bArray<double>>(v)); }
template<class A> std::string hkl(const A& v, double s=U){ std::string o="["; for (ind_t i=0;i<v.size(0);++i){ o+=i?",":""; std::vector<long long> k; for (ind_t j=0;j<3;++j) k.push_back(ri((double)v.val(i,j),s)); o+=emit::val(k);} return o+"]"; }
static std::string lists(const std::vector<std::vector<ind_t>>& f){ std::string o="["; for (size_t i=0;i<f.size();++i){ o+=i?",":""; o+=emit::val(f[i]); } return o+"]"; }
static std::string bits(const std::vector<bool>& v){ std::vector<int> o; for (auto x: v) o.push_back(x?1:0); return emit::val(o); }
template<template<class> class A> struct Run {
  typedef Poly<double,A> P; typedef A<double> V; P cur, oth; double t=0; int d=1; std::vector<std::vector<D3>> trip;
  void solid(emit::Event& e, const char* pre, const P& p){
    std::string q(pre); double v6=p.volume()*6*U*U*U/cell; auto fs=p.faces(); auto fl=fs.faces();
    e.raw((q+"verts").c_str(),fl.empty()?"[]":hkl(p.vertices())).raw((q+"faces").c_str(),lists(fl)).f((q+"vol").c_str(),ri(v6)).f((q+"fc").c_str(),(int)p.face_count());
    if (q.empty()) e.f("lattice",std::is_same_v<V,LVec<double>>?1:0);
    std::string cen="[]";
    if (!fl.empty()){ auto c=p.centroid(); cen=hkl(c,U*4*std::nearbyint(v6)); cen=cen.substr(1,cen.size()-2); }
    e.raw((q+"cen").c_str(),cen); }
  static D3 point(std::istream& in, double u){ D3 x; for (auto& y: x) y=mo::num(in)/u; return x; }
  static std::vector<D3> points(std::istream& in, int n, double u){ std::vector<D3> v; for (int i=0;i<n;++i) v.push_back(point(in,u)); return v; }
  struct Planes { V a,b,c; std::string txt; };
  Planes planes(std::istream& in, int n){ std::vector<D3> a,b,c; for (int i=0;i<n;++i){ a.push_back(point(in,U)); b.push_back(point(in,U)); c.push_back(point(in,U)); }
    auto s=[&](const std::vector<D3>& x,int i){ std::vector<long long> k; for (auto y: x[i]) k.push_back(ri(y,U)); return emit::val(k); };
    std::string o="["; for (int i=0;i<n;++i) o+=(i?",[":"[")+s(a,i)+","+s(b,i)+","+s(c,i)+"]"; return {make<V>(a),make<V>(b),make<V>(c),o+"]"}; }
  static P box(std::istream& in, std::string& txt){ D3 l=point(in,U), h=point(in,U); std::vector<long long> a,b; for (auto x: l) a.push_back(ri(x,U)); for (auto x: h) b.push_back(ri(x,U)); txt="["+emit::val(a)+","+emit::val(b)+"]";
    std::vector<D3> v; for (int i=0;i<8;++i) v.push_back({i&1?h[0]:l[0],i&2?h[1]:l[1],i&4?h[2]:l[2]});
    std::vector<std::vector<ind_t>> f{{0,4,6,2},{1,3,7,5},{0,1,5,4},{2,6,7,3},{0,2,3,1},{4,5,7,6}};
    return P(make<V>(v),Faces(f)); }
  void step(const std::string& op, std::istream& in, emit::Event& e){
    auto n=[&](){ return mo::num(in); };
    constexpr bool in_lattice=std::is_same_v<V,LVec<double>>; auto nothing=[&](const P& p){ return p.face_count()==0||(in_lattice&&std::fabs(p.volume()/cell)<1e-9); }; bool empty=nothing(cur); if (op=="Query"||op=="Moved"||op=="Lattice"||op=="Equal"||op=="Rand"||op=="Face"||op=="Divide") { e.f("empty",empty?1:0); if (empty) return; }
    if (op=="Box"){ std::string how, txt; in>>how; P b=box(in,txt); e.f("how",how).raw("box",txt);
      if (how=="bound") cur=bounding_box(b.vertices());
      else if (how=="hull") cur=P(b.vertices());
      else if (how=="proto"){ auto f=b.faces().faces(); for (auto& x: f) std::swap(x[2],x[3]); cur=P(b.vertices(),f); }     // corners out of order
      else cur=b;
      solid(e,"",cur); }
    else if (op=="Hull"){ int k=n(); auto p=points(in,k,U); V v=make<V>(p); e.raw("pts",hkl(v)); int tt=n(); cur= tt ? P(v,1e-12,1000) : P(v); solid(e,"",cur); }
    else if (op=="Tol"){ int k=n(); t=k?1e-12:0; d=k?1000:1; e.f("tol",k); }
    else if (op=="Cut"){ int k=n(), one=n(); auto p=planes(in,k); e.raw("planes",p.txt);
      if (one) for (ind_t i=0;i<(ind_t)k;++i){ cur=cur.one_cut(p.a.view(i),p.b.view(i),p.c.view(i),t,d); }
      else cur=cur.cut(p.a,p.b,p.c,t,d);
      solid(e,"",cur); }
    else if (op=="Halves"){ auto p=planes(in,1); e.raw("planes",p.txt); auto x=cur.cut(p.a,p.b,p.c,t,d), y=cur.cut(p.c,p.b,p.a,t,d); solid(e,"x",x); solid(e,"y",y);
      e.f("lattice",in_lattice?1:0); if (!nothing(x)&&!nothing(y)){ constexpr bool rounds=std::is_same_v<V,LVec<double>>; auto z=rounds ? x.combine(y,1e-12,1000) : x.combine(y,t,d); e.f("both",1); solid(e,"z",z); if (rounds) e.f("sum",1); else { auto w=x+y; e.f("sum",w.is_approx(z,1e-12,1000)?1:0); } } else e.f("both",0); }
    else if (op=="Divide"){ auto p=planes(in,1); e.raw("planes",p.txt); solid(e,"",cur.divide(p.a,p.b,p.c)); }
    else if (op=="Save"){ oth=cur; P c2(oth), c3(std::move(c2)); oth=std::move(c3); e.f("same",oth==cur?1:0); }
    else if (op=="Swap"){ std::swap(oth,cur); solid(e,"",cur); }
    else if (op=="Meets"){ auto x=cur.template intersection<double,A>(oth,t,d); solid(e,"",x); e.f("meets",cur.template intersects<double,A>(oth,1e-12,1000)?1:0); int keep=n(); e.f("keep",keep); if (keep) cur=x; }
    else if (op=="Contains"){ int k=n(); auto p=points(in,k,U); V x=make<V>(p); e.raw("pts",hkl(x)).raw("in",bits(cur.contains(x,1e-12,1000))).f("lattice",std::is_same_v<V,LVec<double>>?1:0).raw("inp",bits(cur.contains(p,1e-12,1000))); }
    else if (op=="Query"){ // everything calculated from the corners and the faces
      e.raw("normals",[&](){ auto m=cur.face_normals(); std::string o="["; auto fs=cur.faces().faces(); auto vv=cur.vertices();
        for (ind_t i=0;i<m.size(0);++i){ // the normal in dual coordinates is what the plane needs: dot with the edges of the dual basis
          D3 k; double top=0; for (int j=0;j<3;++j){ std::vector<D3> b1{{j==0?1.:0.,j==1?1.:0.,j==2?1.:0.}}; V u=make<V>(b1); k[j]=dot(m.view(i),u).sum(); top=std::max(top,std::fabs(k[j])); }
          long long best=0; std::vector<long long> z; for (int s=1;s<=400&&!best;++s){ bool ok=true; z.clear(); for (auto y: k){ double q=y/top*s, r=std::nearbyint(q); z.push_back((long long)r); ok=ok&&std::fabs(q-r)<1e-8*s; } best=ok; }
          if (!best) z={NOT,NOT,NOT}; o+=(i?",":"")+emit::val(z); }
        return o+"]"; }());
      e.f("unit",[&](){ auto m=norm(cur.face_normals()); bool ok=true; for (ind_t i=0;i<m.size(0);++i) ok=ok&&std::fabs(m.val(i,0)-1)<1e-9; return ok?1:0; }());
      auto fs=cur.faces().faces(); std::string fp="["; V fpt=cur.face_points(); for (ind_t i=0;i<fpt.size(0);++i){ std::vector<long long> k; for (ind_t j=0;j<3;++j) k.push_back(ri((double)fpt.val(i,j),U*fs[i].size())); fp+=(i?",":"")+emit::val(k); }
      e.raw("fpoints",fp+"]");
      auto ed=cur.edges(); std::vector<std::vector<ind_t>> el; for (ind_t i=0;i<ed.size(0);++i) el.push_back({ed.val(i,0),ed.val(i,1)});
      e.raw("edges",lists(el)).raw("halves",hkl(cur.half_edges(),2*U)).raw("fpv",lists(cur.faces_per_vertex())).f("vc",(int)cur.vertex_count());
      auto [a,b,c]=cur.planes(); e.raw("pa",hkl(a)).raw("pb",hkl(b)).raw("pc",hkl(c));
      auto hull=cur.convex_hull(); e.f("hull",hull.is_approx(cur,1e-12,1000)?1:0); solid(e,"h",hull); }
    else if (op=="Moved"){ auto m=cur.mirror(); solid(e,"m",m); auto z=cur.centre(); e.raw("zcen",hkl(z.centroid(),1e6)).f("zvol",ri(z.volume()*6*U*U*U/cell)); 
      auto mm=m.mirror(); e.f("back",mm==cur?1:0); }
    else if (op=="Lattice"){ if constexpr (std::is_same_v<V,LVec<double>>){ auto W=mo::mat(in); auto s=point(in,U); std::vector<D3> sv{s}; e.raw("W",emit::val(W)).raw("s",hkl(make<V>(sv)));
        PointSymmetry ps(std::vector<std::array<int,9>>{W}); auto a=cur.apply(ps,0); solid(e,"a",a); auto tr=cur.translate(make<V>(sv)); solid(e,"t",tr); e.f("recip",LU==LengthUnit::inverse_angstrom?1:0); } }
    else if (op=="Equal"){ int seed=n(), what=n(); std::mt19937 g(seed); ind_t k=cur.vertex_count(); std::vector<ind_t> p(k); for (ind_t i=0;i<k;++i) p[i]=i; std::shuffle(p.begin(),p.end(),g);
      V v=0*cur.vertices(); V w=cur.vertices(); for (ind_t i=0;i<k;++i) v.set(p[i],w.view(i));
      auto f=cur.faces().faces(); for (auto& x: f){ for (auto& y: x) y=p[y]; std::rotate(x.begin(),x.begin()+g()%x.size(),x.end()); } std::shuffle(f.begin(),f.end(),g);
      if (what==1) std::reverse(f[0].begin(),f[0].end());
      if (what==2) v.val(0,g()%3)+=1./16;
      if (what==3) f.pop_back();
      P q(v,Faces(f)); e.f("what",what).f("eq",cur==q?1:0).f("qe",q==cur?1:0).f("ne",cur!=q?1:0); }
    else if (op=="Face"){ auto p=planes(in,1); e.raw("planes",p.txt).f("has",cur.has_face(p.a,p.b,p.c)?1:0).raw("at",[&](){ auto k=cur.face_index(p.a,p.b,p.c); if (k>=cur.face_count()) return std::string("[]"); auto fs=cur.faces(); return hkl(cur.vertices().extract(fs.face((ind_t)k))); }()).f("none",cur.none_beyond(p.a,p.b,p.c)?1:0); }
    else if (op=="Rand"){ int k=n(), seed=n(); auto r=cur.rand_rejection(k,seed); std::string o="["; for (ind_t i=0;i<r.size(0);++i){ std::vector<long long> x; for (ind_t j=0;j<3;++j) x.push_back((long long)std::nearbyint((double)r.val(i,j)*U*1000)); o+=(i?",":"")+emit::val(x); } e.raw("pts",o+"]").f("k",k); }
    else BAD_SCRIPT("operation " << op);
  }
};
int main(){
  std::string line, op; std::unique_ptr<Run<bArray>> bare; std::unique_ptr<Run<LVec>> in_lat;
  while (std::getline(std::cin,line)){
    if (line.empty()) continue;
    std::istringstream in(line); in>>op;
    if (op=="Reset"){ std::string how; in>>how; bare.reset(); in_lat.reset(); cell=1; emit::Event("Reset").f("how",how);
      if (how=="bare"||how.empty()) bare=std::make_unique<Run<bArray>>();
      else { G6 g=g6(in); lat=std::make_unique<Lat>(LengthUnit::angstrom,lens(g),angs(g,AngleUnit::radian),"P 1",std::string(""),Basis(),false,AngleUnit::radian); LU=how=="real"?LengthUnit::angstrom:LengthUnit::inverse_angstrom; cell=std::sqrt(detg(g)); if (how!="real") cell=TP*TP*TP/cell; in_lat=std::make_unique<Run<LVec>>(); }
      continue; }
    emit::Event e(op);
    try { if (bare) bare->step(op,in,e); else in_lat->step(op,in,e); e.f("threw",false); }
    catch (const std::exception& x){ std::string w(x.what()); e.f("threw",true).f("what_",w.substr(0,200)); }
  }
}
