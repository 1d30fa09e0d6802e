// Objects written to files and read back.
#include <cassert>
#include "gram.hpp"
#include "spg_database.hpp"
#include "transform.hpp"
#include "polyhedron_flex.hpp"
#include "bz.hpp"
#include "bz_trellis.hpp"
#include "bz_mesh.hpp"
#include <memory>
#include <complex>
#include <omp.h>
using namespace brille; using namespace brille::lattice; using namespace brille::polyhedron; using namespace gr;
typedef std::complex<double> C; typedef bArray<double> V; typedef Lattice<double> Lat; typedef LVec<double> LV; typedef unsigned long long u64; typedef std::vector<long long> Ints;
static u64 mix(u64 h, u64 x){ h^=x+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; return h^(h>>33); }
static u64 lcg_=1; static int rnd(int a, int b){ lcg_=lcg_*6364136223846793005ull+1442695040888963407ull; return a+(int)((lcg_>>33)%(unsigned)(b-a+1)); }
// a description: one number for each part
struct H { u64 h=7; void add(double x){ if (x==0) x=0; u64 b; if (std::isnan(x)) b=1; else std::memcpy(&b,&x,8); h=mix(h,b); } void add(float x){ add((double)x); } void add(const C& x){ add(x.real()); add(x.imag()); }
  template<class I> std::enable_if_t<std::is_integral<I>::value||std::is_enum<I>::value> add(I x){ h=mix(h,(u64)(long long)x); }
  template<class X> void add(const std::vector<X>& v){ add(v.size()); for (const auto& x: v) add(x); }
  template<class X, size_t N> void add(const std::array<X,N>& v){ for (const auto& x: v) add(x); }
  template<class X> void add(const bArray<X>& a){ add(a.size(0)); add(a.size(1)); for (ind_t i=0;i<a.size(0);++i) for (ind_t j=0;j<a.size(1);++j) add(a.val(i,j)); }
  long long small() const { return (long long)(h%2000000011ull); } };
template<class X> static long long part(const X& x){ H h; h.add(x); return h.small(); }
static Ints of(const Basis& b){ H h; for (auto& x: b.positions()) h.add(x); return {(long long)b.size(),h.small(),part(b.types())}; }
static Ints of(const Symmetry& s){ H h, k; for (size_t i=0;i<s.size();++i){ h.add(s.getr(i)); k.add(s.gett(i)); } return {(long long)s.size(),h.small(),k.small()}; }
static Ints of(const PointSymmetry& s){ H h; for (size_t i=0;i<s.size();++i) h.add(s.get(i)); return {(long long)s.size(),h.small()}; }
static Ints plus(std::initializer_list<Ints> l){ Ints o; for (auto& x: l) o.insert(o.end(),x.begin(),x.end()); return o; }
static Ints of(const Lat& l){ return plus({{part(l.real_basis_vectors()),part(l.reciprocal_basis_vectors()),part(l.metric(LengthUnit::angstrom)),part(l.metric(LengthUnit::inverse_angstrom)),(long long)l.bravais()},of(l.spacegroup_symmetry()),of(l.pointgroup_symmetry()),of(l.basis())}); }
static Ints of(const V& v){ return {v.size(0),v.size(1),part(v)}; }
template<class T> static Ints of(const LVec<T>& v){ return plus({{(long long)v.type()},of(v.lattice()),{v.size(0),part(bArray<T>(v.hkl())),part(bArray<double>(v.xyz()))}}); }
template<class P> static Ints ofpoly(const P& p){ H f; for (auto& x: p.faces().faces()) f.add(x); return plus({of(p.vertices()),{f.small()}}); }
static Ints of(const BrillouinZone& b){ return plus({of(b.get_lattice()),of(b.get_primitive_lattice()),ofpoly(b.get_polyhedron()),ofpoly(b.get_ir_polyhedron(true)),ofpoly(b.get_ir_polyhedron(false)),of(b.get_ir_wedge_normals()),{b.isprimitive()?1:0,(long long)b.get_pointgroup_symmetry().size()}}); }
struct Obj { virtual ~Obj(){} virtual Ints desc() const=0; virtual Ints act(int o, int seed)=0; virtual bool save(const std::string& f, const std::string& e) const=0; virtual std::unique_ptr<Obj> load(const std::string& f, const std::string& e) const=0; };
typedef std::unique_ptr<Obj> O;
// by the name of a file where that is offered, else through an object of the file
template<class X> static auto put(const X& x, const std::string& f, const std::string& e, int) -> decltype(x.to_hdf(f,e)) { return x.to_hdf(f,e); }
template<class X> static bool put(const X& x, const std::string& f, const std::string& e, long){ HighFive::File file(f,HighFive::File::OpenOrCreate); return x.to_hdf(file,e); }
template<class X> static auto get(const std::string& f, const std::string& e, int) -> decltype(X::from_hdf(f,e)) { return X::from_hdf(f,e); }
template<class X> static X get(const std::string& f, const std::string& e, long){ HighFive::File file(f,HighFive::File::ReadOnly); return X::from_hdf(file,e); }
#define STORED(Self,x,X,way) bool save(const std::string& f, const std::string& e) const override { return put(x,f,e,way); } O load(const std::string& f, const std::string& e) const override { return std::make_unique<Self>(get<X>(f,e,way)); }
static double some(){ int k=rnd(0,9); return k==0?0:k==1?1e-300*rnd(1,9):k==2?-1e300:k==3?rnd(-5,5):rnd(-1000000,1000000)/3e5; }
static void any(double& x){ x=some(); } static void any(int& x){ x=rnd(-9,9); } static void any(C& x){ double a=some(); x=C(a,some()); } static void any(ind_t& x){ x=(ind_t)rnd(0,99); }
template<class T> struct Arr: Obj { bArray<T> a; Arr(bArray<T>&& x): a(std::move(x)){} Arr(const bArray<T>& x): a(x){}
  Ints desc() const override { return {a.size(0),a.size(1),part(a)}; }
  Ints act(int o, int) override { if (o==1&&a.numel()){ any(a.val(rnd(0,a.size(0)-1),rnd(0,a.size(1)-1))); return {1}; }
    if (o==2){ bArray<T> b((ind_t)rnd(1,2),a.size(1)); for (ind_t i=0;i<b.size(0);++i) for (ind_t j=0;j<b.size(1);++j) any(b.val(i,j)); if (!a.size(1)) return {0}; a=cat(0,a,b); return {2}; }
    if (o==3&&a.size(0)){ a=bArray<T>(a.view((ind_t)rnd(0,a.size(0)-1),a.size(0))); return {3}; }
    if (o==4&&a.size(0)&&a.size(1)){ auto n=(ind_t)rnd(0,a.size(0)); a=a.decouple(); a.resize(n); return {4}; } return {0}; }
  STORED(Arr<T>,a,bArray<T>,0) };
template<class T> static O arr(int n, int m, int how){ bArray<T> a((ind_t)n,(ind_t)m); for (ind_t i=0;i<(ind_t)n;++i) for (ind_t j=0;j<(ind_t)m;++j) any(a.val(i,j));
  if (how==1&&n>1) return std::make_unique<Arr<T>>(bArray<T>(a.view(1,(ind_t)n))); if (how==2&&n>2) return std::make_unique<Arr<T>>(bArray<T>(a.extract(std::vector<ind_t>{(ind_t)n-1,0}))); return std::make_unique<Arr<T>>(std::move(a)); }
static V points(int k, int m, int reach){ V x((ind_t)k,3u); for (ind_t i=0;i<(ind_t)k;++i) for (ind_t j=0;j<3;++j) x.val(i,j)=(double)rnd(-reach*m,reach*m)/m; return x; }
struct Bas: Obj { Basis b; Bas(Basis x): b(std::move(x)){} Ints desc() const override { return of(b); } Ints act(int o, int) override { if (!b.size()) return {0}; size_t i=rnd(0,(int)b.size()-1); return {part(b.position(i)),(long long)b.types()[i],o}; } STORED(Bas,b,Basis,0l) };
struct Sym: Obj { Symmetry s; Sym(Symmetry x): s(std::move(x)){} Ints desc() const override { return of(s); }
  Ints act(int o, int) override { if (o==1) s=s.generate(); else if (o==2) s=s.generators(); else if (o==3&&s.size()) s.erase(rnd(0,(int)s.size()-1)); else { Spacegroup g(rnd(1,530)); auto t=g.get_spacegroup_symmetry(); s.add(t.getm(rnd(0,(int)t.size()-1))); } return {(long long)s.size()}; }
  STORED(Sym,s,Symmetry,0l) };
struct Pnt: Obj { PointSymmetry s; Pnt(PointSymmetry x): s(std::move(x)){} Ints desc() const override { return of(s); }
  Ints act(int o, int) override { if (o==1) s=s.generate(); else if (o==2) s=s.generators(); else if (o==3) s=s.nfolds(rnd(0,4)); else if (s.size()) s.erase(rnd(0,(int)s.size()-1)); return {(long long)s.size()}; }
  STORED(Pnt,s,PointSymmetry,0l) };
struct Mot: Obj { Motion<int,double> m; Mot(Motion<int,double> x): m(std::move(x)){} Ints desc() const override { return {part(m.getr()),part(m.gett())}; } Ints act(int, int) override { m=m*m; return {0}; } STORED(Mot,m,decltype(m),0l) };
struct Cfg: Obj { approx_float::Config c; Cfg(approx_float::Config x): c(x){} Ints desc() const override { return {c.digit(),part(c.direct<double>()),part(c.reciprocal<double>())}; } Ints act(int o, int) override { if (o==1) c.digit(rnd(1,9999)); else if (o==2) c.direct(1e-9*rnd(1,99)); else c.reciprocal(1e-9*rnd(1,99)); return {o}; } STORED(Cfg,c,approx_float::Config,0l) };
struct Lt: Obj { Lat l; Lt(Lat x): l(std::move(x)){} Ints desc() const override { return of(l); } Ints act(int o, int) override { if (o==1) l=l.primitive(); LV v(rnd(0,1)?LengthUnit::inverse_angstrom:LengthUnit::angstrom,l,points(2,5,2)); return {part(V(v.xyz())),part(V(v.star().hkl()))}; }
  bool save(const std::string& f, const std::string& e) const override { HighFive::File file(f,HighFive::File::OpenOrCreate); return l.to_hdf(file,e); }
  O load(const std::string& f, const std::string& e) const override { HighFive::File file(f,HighFive::File::ReadOnly); return std::make_unique<Lt>(Lat::from_hdf(file,e)); } };
template<class T> struct Vec: Obj { LVec<T> v; Vec(LVec<T> x): v(std::move(x)){} Ints desc() const override { return of(v); } Ints act(int o, int) override { if (o==1) v=LVec<T>(v+v); else if (o==2&&v.size(0)) v.set(0,LVec<T>(v.view(v.size(0)-1))*T(2)); auto n=norm(v); return {part(V(n)),o}; } STORED(Vec<T>,v,LVec<T>,0) };
struct Tab: Obj { PermutationTable t; int n, b; Tab(PermutationTable x, int n_, int b_): t(std::move(x)), n(n_), b(b_){}
  Ints desc() const override { Ints o; for (int i=0;i<n;++i) for (int j=0;j<n;++j){ o.push_back(t.has(i,j)?1:0); auto p=t.safe_get(i,j); for (auto x: p) o.push_back(x); o.push_back(t.value_needed(i,j)?1:0); } return {part(o),(long long)o.size()}; }
  Ints act(int o, int) override { int i=rnd(0,n-1), j=rnd(0,n-1); std::vector<ind_t> p(b); for (int k=0;k<b;++k) p[k]=k; for (int k=b-1;k>0;--k) std::swap(p[k],p[rnd(0,k)]); if (i==j) return {0}; if (o<3) return {(long long)t.set(i,j,p)}; if (o==3) return {(long long)t.overwrite(i,j,p)}; return {t.refresh(n,b)?1:0}; }
  bool save(const std::string& f, const std::string& e) const override { return t.to_hdf(f,e); }
  O load(const std::string& f, const std::string& e) const override { return std::make_unique<Tab>(PermutationTable::from_hdf(f,e),n,b); } };
template<class X> struct Pol: Obj { X p; Pol(X x): p(std::move(x)){} Ints desc() const override { return ofpoly(p); } Ints act(int o, int) override { if (o==2) p=p.mirror(); auto c=p.contains(p.vertices()); return {part(p.volume()),(long long)std::count(c.begin(),c.end(),true),o}; } STORED(Pol<X>,p,X,0) };
struct Fac: Obj { Faces fs; Fac(Faces x): fs(std::move(x)){} Ints desc() const override { H h; for (auto& x: fs.faces()) h.add(x); return {(long long)fs.faces().size(),h.small()}; } Ints act(int o, int) override { if (o<3) fs=fs.mirror(); return {o}; } STORED(Fac,fs,Faces,0) };
static Ints moved(const BrillouinZone& b, int o, int k){ V x=points(k,rnd(1,5),3); LV Q(LengthUnit::inverse_angstrom,b.get_lattice(),x), q(Q); q=LV(LengthUnit::inverse_angstrom,b.get_lattice(),points(k,1,0)); LVec<int> tau(LengthUnit::inverse_angstrom,b.get_lattice(),bArray<int>((ind_t)k,3u)); std::vector<size_t> r,s;
  if (o==1) b.moveinto(Q,q,tau,1); else if (o==2) b.ir_moveinto_wedge(Q,q,r,1); else b.ir_moveinto(Q,q,tau,r,s,1); return {part(V(q.hkl())),part(bArray<int>(tau.hkl())),part(r),part(s)}; }
struct Zon: Obj { BrillouinZone b; Zon(BrillouinZone x): b(std::move(x)){} Ints desc() const override { return of(b); } Ints act(int o, int) override { return moved(b,o,6); } STORED(Zon,b,BrillouinZone,0) };
static void fit(double& x){ x=rnd(-99,99)/8.; } static void fit(C& x){ int a=rnd(-99,99); x=C(a/8.,rnd(-99,99)/8.); }
template<class T> static Array<T> data(ind_t n, int B, int Y){ bArray<T> d(n,(ind_t)(B*Y)); for (ind_t i=0;i<n;++i) for (ind_t j=0;j<d.size(1);++j) fit(d.val(i,j)); return Array<T>(d,{n,(ind_t)B,(ind_t)Y}); }
static long long rounded(double x){ return !std::isfinite(x)||std::fabs(x)>1e9?1:std::llround(x*1048576); } static void show(H& h, double x){ h.add(rounded(x)); } static void show(H& h, const C& x){ h.add(rounded(x.real())); h.add(rounded(x.imag())); }
template<class T> static long long shown(const Array<T>& a){ bArray<T> d(a); auto e=d.decouple(); H h; for (ind_t i=0;i<e.size(0);++i) for (ind_t j=0;j<e.size(1);++j) show(h,e.val(i,j)); return h.small(); }
template<class G, class T, class R> struct Grd: Obj { G g; Grd(G x): g(std::move(x)){}
  template<class X> static auto verts(const X& x, int) -> decltype(V(x.vertices())) { return V(x.vertices()); }
  template<class X> static auto verts(const X& x, long) -> decltype(V(x.get_mesh_xyz())) { return V(x.get_mesh_xyz()); }
  template<class X> static auto cells(const X& x, int) -> decltype(x.node_at_type(std::array<ind_t,3>{}),Ints()) { H h; auto sz=x.size();
    for (ind_t k=0;k<sz[2];++k) for (ind_t j=0;j<sz[1];++j) for (ind_t i=0;i<sz[0];++i){ std::array<ind_t,3> s{i,j,k}; auto t=x.node_at_type(s); h.add(t); ind_t id=i+sz[0]*(j+sz[1]*k);
      if (t==NodeType::cube) h.add(x.cube_node(id).vertices()); else if (t==NodeType::poly){ auto p=x.poly_node(id); for (auto& q: p.vertices_per_tetrahedron()) h.add(q); } }
    return {(long long)sz[0],(long long)sz[1],(long long)sz[2],h.small()}; }
  template<class X> static auto cells(const X& x, long) -> decltype(x.get_mesh_tetrehedra(),Ints()) { return {part(bArray<ind_t>(x.get_mesh_tetrehedra()))}; }
  template<class X> static auto zone(const X& x, int) -> decltype(x.get_brillouinzone(),Ints()) { return of(x.get_brillouinzone()); }
  template<class X> static Ints zone(const X&, long){ return {}; }
  template<class X> static auto at(const X& g, int) -> decltype(g.get_brillouinzone(),Ints()) { LV Q(LengthUnit::inverse_angstrom,g.get_brillouinzone().get_lattice(),points(5,rnd(1,7),2)); auto [a,b]=g.ir_interpolate_at(Q,1); return {shown(Array<T>(a)),shown(Array<R>(b))}; }
  template<class X> static Ints at(const X& g, long){ V v=verts(g,0); V x(6u,3u); for (ind_t i=0;i<6;++i){ int p=rnd(0,(int)v.size(0)-1), q=rnd(0,(int)v.size(0)-1); double w=rnd(0,4)/4.; for (ind_t j=0;j<3;++j) x.val(i,j)=w*v.val(p,j)+(1-w)*v.val(q,j); } auto [a,b]=g.interpolate_at(x,1); return {shown(Array<T>(a)),shown(Array<R>(b))}; }
  Ints desc() const override { const auto& d=g.data(); return plus({of(verts(g,0)),cells(g,0),zone(g,0),{part(d.values().data()),part(d.vectors().data()),part(d.values().shape()),part(d.vectors().shape()),part(d.values().elements()),part(d.vectors().elements()),(long long)d.branches()}}); }
  Ints act(int o, int) override { V v=verts(g,0);
    if (o==1){ int B=rnd(1,3); RotatesLike rl=rnd(0,2)?RotatesLike::vector:RotatesLike::pseudovector; auto lu=rnd(0,1)?LengthUnit::real_lattice:LengthUnit::reciprocal_lattice; std::array<ind_t,3> e{(ind_t)rnd(0,1),3u*rnd(0,1),9u*rnd(0,1)}; if (!(e[0]+e[1]+e[2])) e[0]=1;
      g.replace_value_data(data<T>(v.size(0),B,e[0]+e[1]+e[2]),e,rl,lu); g.replace_vector_data(data<R>(v.size(0),B,3),std::array<ind_t,3>{0,3,0},rnd(0,1)?RotatesLike::vector:RotatesLike::pseudovector,rnd(0,1)?LengthUnit::real_lattice:LengthUnit::reciprocal_lattice); return {1}; }
    if (o==2){ auto w=[&]{ return (double)rnd(0,3); }; std::array<double,3> a{w(),w(),w()}, b{w(),w(),w()}; int c=rnd(0,2), d=rnd(0,5), e=rnd(0,2), f=rnd(0,5); g.set_value_cost_info(c,d,a); g.set_vector_cost_info(e,f,b); return {2}; }
    if (!g.data().values().data().numel()) return {0};   // nothing stored yet
    if (o==3){ g.sort(); return {3}; }
    return at(g,0); }
  STORED(Grd,g,G,0) };
typedef Poly<double,bArray> P; typedef Poly<double,LVec> LP;
static std::unique_ptr<Lat> make_lattice(std::istream& in, bool basis){ auto n=[&](){ return mo::num(in); }; int i=n(); auto g=g6(in); int sn=n(), sd=n(); auto l=lens(g); for (auto& x: l) x*=(double)sn/sd; auto an=angs(g,AngleUnit::radian); Spacegroup s(i);
  auto mk=[&](const Basis& b){ return std::make_unique<Lat>(LengthUnit::inverse_angstrom,l,an,s.hall_symbol,b,true,AngleUnit::radian); };
  if (basis) try { return mk(Basis(std::vector<std::array<double,3>>{{0,0,0}},std::vector<ind_t>{5})); } catch (const std::exception&){}
  return mk(Basis()); }
static BrillouinZone zone(std::istream& in){ auto n=[&](){ return mo::num(in); }; auto l=make_lattice(in,true); BrillouinZoneConfig c; c.primitive(n()); c.time_reversal(n()); c.wedge_search(n()); auto a=approx_float::Config(); if (n()) a.tol(1e-11); return BrillouinZone(*l,c,a); }
static P solid(std::istream& in){ auto n=[&](){ return mo::num(in); }; V b(2u,3u); for (ind_t i=0;i<2;++i) for (ind_t j=0;j<3;++j) b.val(i,j)=n()/24.; P s=bounding_box(b); int cuts=n(); for (int k=0;k<cuts;++k){ V x[3]; for (auto& y: x){ y=V(1u,3u); for (ind_t j=0;j<3;++j) y.val(0,j)=n()/24.; } auto left=s.cut(x[0],x[1],x[2]); if (left.volume()>1e-9) s=left; } return s; }
template<class T, class R> static O mesh(std::istream& in, bool z, const std::string& k, double per, int a){ auto cfg=approx_float::Config(); if (a>1) cfg.tol(1e-10);
  if (z){ auto b=zone(in); double vol=b.get_ir_polyhedron().volume()/per; if (k=="trellis"){ typedef BrillouinZoneTrellis3<T,R,double> G; return std::make_unique<Grd<G,T,R>>(G(b,vol,a%2!=0,cfg)); } typedef BrillouinZoneMesh3<T,R,double> G; return std::make_unique<Grd<G,T,R>>(G(b,vol,1+a%2,-1,cfg)); }
  auto s=solid(in); double vol=s.volume()/per; if (k=="trellis"){ typedef polytrellis::PolyTrellis<T,R,double,Array2> G; return std::make_unique<Grd<G,T,R>>(G(s,vol,a%2!=0,cfg)); } typedef Mesh3<T,R,double,Array2> G; return std::make_unique<Grd<G,T,R>>(G(s.vertices(),s.faces().faces(),vol,1+a%2,-1,cfg)); }
static O make(std::istream& in){ std::string k; in>>k; auto n=[&](){ return mo::num(in); }; lcg_=n();
  if (k=="array"){ int t=n(), r=n(), c=n(), how=n(); return t==0?arr<double>(r,c,how):t==1?arr<int>(r,c,how):t==2?arr<C>(r,c,how):arr<ind_t>(r,c,how); }
  if (k=="basis"){ int m=n(); std::vector<std::array<double,3>> p; std::vector<ind_t> t; for (int i=0;i<m;++i){ p.push_back({rnd(0,99)/100.,rnd(0,99)/100.,rnd(0,99)/100.}); t.push_back((ind_t)rnd(0,3)); } return std::make_unique<Bas>(Basis(p,t)); }
  if (k=="symmetry"||k=="point"){ Spacegroup g(n()); int m=n(); if (k=="point"){ auto p=g.get_pointgroup_symmetry(n()); while (m<(int)p.size()) p.erase(rnd(0,(int)p.size()-1)); return std::make_unique<Pnt>(p); } auto s=g.get_spacegroup_symmetry(); while (m<(int)s.size()) s.erase(rnd(0,(int)s.size()-1)); return std::make_unique<Sym>(s); }
  if (k=="motion"){ Spacegroup g(n()); auto s=g.get_spacegroup_symmetry(); return std::make_unique<Mot>(s.getm(rnd(0,(int)s.size()-1))); }
  if (k=="config") return std::make_unique<Cfg>(approx_float::Config(rnd(1,5000),1e-9*rnd(1,50),1e-9*rnd(1,50)));
  if (k=="table"){ int a=n(), b=n(), r=n(); std::set<size_t> keys; for (int i=0;i<r;++i){ size_t x=rnd(0,a-1), y=rnd(0,a-1); if (x!=y) keys.insert(x*a+y); } return std::make_unique<Tab>(PermutationTable(a,b,keys),a,b); }
  if (k=="lattice"){ int b=n(); return std::make_unique<Lt>(*make_lattice(in,b)); }
  if (k=="vectors"){ int t=n(), m=n(), u=n(); auto l=make_lattice(in,true); auto lu=u?LengthUnit::inverse_angstrom:LengthUnit::angstrom; if (t){ bArray<int> x((ind_t)m,3u); for (ind_t i=0;i<(ind_t)m;++i) for (ind_t j=0;j<3;++j) x.val(i,j)=rnd(-5,5); return std::make_unique<Vec<int>>(LVec<int>(lu,*l,x)); } return std::make_unique<Vec<double>>(LV(lu,*l,points(m,7,3))); }
  if (k=="zone") return std::make_unique<Zon>(zone(in));
  if (k=="poly"){ auto s=solid(in); return std::make_unique<Pol<P>>(s); }
  if (k=="faces"){ auto s=solid(in); return std::make_unique<Fac>(s.faces()); }
  if (k=="zonepoly"){ int ir=n(); auto b=zone(in); return std::make_unique<Pol<LP>>(ir?b.get_ir_polyhedron():b.get_polyhedron()); }
  if (k=="grid"||k=="zonegrid"){ std::string w; in>>w; int t=n(); double per=n()/10.; int a=n(); bool z=k=="zonegrid"; return t==0?mesh<double,double>(in,z,w,per,a):t==1?mesh<double,C>(in,z,w,per,a):mesh<C,C>(in,z,w,per,a); }
  BAD_SCRIPT("kind "+k); return {}; }
int main(){
  omp_set_num_threads(1); std::string line, op; std::map<int,O> slots; int run=0;
  std::map<std::string,O> sample;    // what was saved where: an object of its kind, to load with
  std::map<std::string,std::string> made; std::map<int,std::string> how;
  auto whole=[&](int s){ return slots[s] ? slots[s]->desc() : Ints(); };
  while (std::getline(std::cin, line)){
    if (line.empty()) continue;
    std::istringstream in(line); in>>op; auto n=[&](){ return mo::num(in); };
    if (op=="Reset"){ slots.clear(); how.clear(); made.clear(); ++run; emit::Event("Reset"); continue; }
    int s=n(); std::string rest; 
    if (op=="Make"){ std::getline(in>>std::ws,rest); emit::Event e("Make"); e.f("slot",s).f("what",rest); std::istringstream r(rest); try { slots[s]=make(r); how[s]=rest; e.f("desc",whole(s)).f("ans",Ints()).f("threw",false); } catch (const std::exception& x){ slots.erase(s); e.f("desc",Ints()).f("ans",Ints()).f("threw",true).f("why",std::string(x.what()).substr(0,120)); } continue; }
    if (op=="Do"){ int o=n(), seed=n(); if (!slots.count(s)) continue; emit::Event e("Do"); e.f("slot",s).f("what",std::to_string(o)+" "+std::to_string(seed)); lcg_=seed; Ints a; bool t=false; std::string why; try { a=slots[s]->act(o,seed); } catch (const std::exception& x){ t=true; why=std::string(x.what()).substr(0,120); } e.f("desc",whole(s)).f("ans",a).f("threw",t).f("why",why); continue; }
    int k=n(); std::string file="f"+std::to_string(run)+"_"+std::to_string(k%2), entry= k%3==0?"top":k%3==1?"some/where":"e"+std::to_string(k); std::string key=file+":"+entry;
    if (op=="Save"){ if (!slots.count(s)) continue; emit::Event e("Save"); e.f("slot",s).f("key",key); bool ok=false; std::string why; try { ok=slots[s]->save(file,entry); } catch (const std::exception& x){ why=std::string(x.what()).substr(0,120); } made[key]=how[s]; e.f("ok",ok).f("desc",whole(s)).f("why",why); continue; }
    if (op=="Load"){ emit::Event e("Load"); e.f("slot",s).f("key",key);
      try { O o; if (!made.count(key)){ Bas b{Basis()}; o=b.load(file,entry); how[s]="basis 1 0"; }
        else { if (!sample.count(made[key])){ std::istringstream r(made[key]); sample[made[key]]=make(r); } o=sample[made[key]]->load(file,entry); how[s]=made[key]; }
        slots[s]=std::move(o); e.f("desc",whole(s)).f("threw",false); }
      catch (const std::exception& x){ e.f("desc",Ints()).f("threw",true).f("why",std::string(x.what()).substr(0,120)); } continue; }
    BAD_SCRIPT("op "+op);
  }
}
