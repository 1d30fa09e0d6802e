// The same work done by different numbers of threads and in different orders.
#include <cassert>
#include "gram.hpp"
#include "spg_database.hpp"
#include "transform.hpp"
#include "polyhedron_flex.hpp"
#include "bz.hpp"
#include "bz_trellis.hpp"
#include "bz_nest.hpp"
#include "bz_mesh.hpp"
#include <memory>
#include <complex>
#include <omp.h>
#ifdef SHIM
#include "gomp_shim.hpp"
#endif
using namespace brille; using namespace brille::lattice; using namespace brille::polyhedron; using namespace gr;
typedef std::complex<double> C; typedef bArray<double> V; typedef Poly<double,bArray> P; typedef Lattice<double> Lat; typedef LVec<double> LV;
static V make(const std::vector<D3>& v){ V o((ind_t)v.size(),3u); for (ind_t i=0;i<v.size();++i) for (ind_t j=0;j<3;++j) o.val(i,j)=v[i][j]; return o; }
typedef std::array<long long,3> K3; typedef unsigned long long u64;
static const double COARSE=16384, FINE=1048576;
static K3 key(const V& v, ind_t i){ K3 k; for (ind_t j=0;j<3;++j) k[j]=std::llround(v.val(i,j)*COARSE); return k; }
static u64 mix(u64 h, u64 x){ h^=x+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; return h^(h>>33); }
static u64 hash(const K3& k){ u64 h=7; for (auto x: k) h=mix(h,(u64)(x+(1ll<<40))); return h; }
static long long small(u64 h){ return (long long)(h%2000000011ull); }
static u64 lcg_=1; static int rnd(int a, int b){ lcg_=lcg_*6364136223846793005ull+1442695040888963407ull; return a+(int)((lcg_>>33)%(unsigned)(b-a+1)); }
static long long fine(double x){ double y=x*FINE; return !std::isfinite(y)||std::fabs(y)>2e9?2000000011ll:std::llround(y); }
// a grid: how many points, what its points and its cells are, whatever their numbers
static std::vector<long long> shape(const V& v, const std::vector<std::vector<ind_t>>& cells, const std::vector<int>& kinds){
  std::vector<u64> h; u64 p=0, c=0; for (ind_t i=0;i<v.size(0);++i){ h.push_back(hash(key(v,i))); p+=mix(1,h.back()); }
  for (auto& x: cells){ std::vector<u64> s; for (auto i: x) s.push_back(i<h.size()?h[i]:1); std::sort(s.begin(),s.end()); u64 q=3; for (auto y: s) q=mix(q,y); c+=mix(2,q); }
  u64 k=5; for (auto x: kinds) k=mix(k,x); return {(long long)v.size(0),(long long)cells.size(),small(p),small(c),small(k)}; }
struct Any { virtual ~Any(){} virtual std::vector<long long> shape() const=0; virtual void fill(int seed, int B, int how, int like, int unit, int kind)=0; virtual void sort()=0; virtual std::string at(const V& x, const LV* Q, int thr, bool ir) const=0; };
static void put(double& x, int a, int){ x=a; }
static void put(C& x, int a, int b){ x=C(a,b); }
// the vectors of a mode are the same at every point, but for their length and phase
static void turn(double&, u64){ }
static void turn(C& x, u64 h){ x*=std::polar(1+(h%5)/1000.,(h%997)*0.0063); }
static void show(std::vector<long long>& o, double x){ o.push_back(fine(x)); }
static void show(std::vector<long long>& o, const C& x){ o.push_back(fine(x.real())); o.push_back(fine(x.imag())); }
template<class T> static std::string show(const Array<T>& a){ bArray<T> d(a); auto e=d.decouple(); std::vector<long long> o; for (ind_t i=0;i<e.size(0);++i) for (ind_t j=0;j<e.size(1);++j) show(o,e.val(i,j)); return emit::val(o); }
// what does not depend on the order of the modes at a point, nor on the phases of their vectors
static void sizes(std::vector<long long>& o, double x, double y){ o.push_back(fine(x*y/16384)); }
static void sizes(std::vector<long long>& o, const C& x, const C& y){ auto p=x*std::conj(y)/16384.; o.push_back(fine(p.real())); o.push_back(fine(p.imag())); }
static double first(double x){ return x; } static double first(const C& x){ return x.real(); }
template<class T, class R> static std::string bare(const Array<T>& a, const Array<R>& b, int B){ bArray<T> d(a); auto e=d.decouple(); bArray<R> f(b); auto g=f.decouple(); ind_t y=e.size(1)/B, z=g.size(1)/B; std::vector<long long> o;
  for (ind_t i=0;i<e.size(0);++i){ std::vector<ind_t> w(B); for (ind_t m=0;m<(ind_t)B;++m) w[m]=m; std::stable_sort(w.begin(),w.end(),[&](ind_t p, ind_t q){ return std::llround(first(e.val(i,p*y))/8)<std::llround(first(e.val(i,q*y))/8); });
    for (auto m: w){ for (ind_t j=0;j<y;++j) show(o,e.val(i,m*y+j)); for (ind_t j=0;j<z;++j) for (ind_t k=0;k<=j;++k) sizes(o,g.val(i,m*z+j),g.val(i,m*z+k)); } }
  return emit::val(o); }
template<class T, class R> static std::string three(const Array<T>& a, const Array<R>& b, int B){ return show(a)+","+show(b)+","+bare(a,b,B); }
// modes that depend on where the point is only; they cross when their order at each point is some other one
template<class T> static Array<T> data(const V& v, int seed, int B, int Y, int how, bool vec){ bArray<T> d(v.size(0),(ind_t)(B*Y));
  for (ind_t i=0;i<v.size(0);++i){ u64 h=mix(hash(key(v,i)),how?seed:0); for (int b=0;b<B;++b){ int m= how? (int)((b+h%B)%B):b; for (int y=0;y<Y;++y) { bool c=vec&&!std::is_same<T,double>::value; put(d.val(i,b*Y+y),(m*60+(int)(mix(seed,m*100+y)%50))*10+(c?0:(int)(mix(h,m*31+y)%5)),(m*60+(int)(mix(seed+1,m*100+y)%50))*10+(c?0:(int)(mix(h,m*37+y)%5))); if (c) turn(d.val(i,b*Y+y),mix(h,m*41)); } } }
  return Array<T>(d,{v.size(0),(ind_t)B,(ind_t)Y}); }
static int modes=1, grids=0;
template<class G, class T, class R, bool BZ> struct One: Any { G g; One(G&& x): g(std::move(x)){}
  std::vector<long long> shape() const override { return cells(g,0); }
  template<class X> static auto verts(const X& x, int) -> decltype(x.vertices()) { return x.vertices(); }
  template<class X> static auto verts(const X& x, long) -> decltype(x.get_mesh_xyz()) { return x.get_mesh_xyz(); }
  template<class X> static auto cells(const X& x, int) -> decltype(x.node_at_type(std::array<ind_t,3>{}),std::vector<long long>()) { std::vector<std::vector<ind_t>> c; std::vector<int> kinds; auto sz=x.size();
    for (ind_t k=0;k<sz[2];++k) for (ind_t j=0;j<sz[1];++j) for (ind_t i=0;i<sz[0];++i){ std::array<ind_t,3> s{i,j,k}; auto t=x.node_at_type(s); kinds.push_back((int)t); ind_t id=i+sz[0]*(j+sz[1]*k);
      if (t==NodeType::cube) c.push_back(x.cube_node(id).vertices()); else if (t==NodeType::poly){ auto p=x.poly_node(id); for (auto& q: p.vertices_per_tetrahedron()) c.emplace_back(q.begin(),q.end()); } }
    return ::shape(V(x.vertices()),c,kinds); }
  template<class X> static auto cells(const X& x, long) -> decltype(x.tetrahedra(),std::vector<long long>()) { std::vector<std::vector<ind_t>> c; for (auto& q: x.tetrahedra()) c.emplace_back(q.begin(),q.end()); return ::shape(V(x.vertices()),c,{}); }
  template<class X> static auto cells(const X& x, int) -> decltype(x.get_mesh_tetrehedra(),std::vector<long long>()) { std::vector<std::vector<ind_t>> c; auto t=x.get_mesh_tetrehedra(); for (ind_t i=0;i<t.size(0);++i){ std::vector<ind_t> q; for (ind_t j=0;j<t.size(1);++j) q.push_back(t.val(i,j)); c.push_back(q); } return ::shape(V(x.get_mesh_xyz()),c,{}); }
  void fill(int seed, int B, int how, int like, int unit, int kind) override { V v(verts(g,0)); auto rl= like==0?RotatesLike::vector:like==1?RotatesLike::pseudovector:RotatesLike::Gamma; auto lu= unit? LengthUnit::reciprocal_lattice:LengthUnit::real_lattice; ind_t Y= kind==0?2:kind==1?3:10;
    g.replace_value_data(data<T>(v,seed,B,Y,how,false), kind==0?std::array<ind_t,3>{2,0,0}:kind==1?std::array<ind_t,3>{0,3,0}:std::array<ind_t,3>{1,0,9}, like==2?RotatesLike::vector:rl,lu); g.replace_vector_data(data<R>(v,seed+7,B,3,how,true),std::array<ind_t,3>{0,3,0},rl,lu);
    g.set_value_cost_info(0,0,std::array<double,3>{1,1,1}); g.set_vector_cost_info(0,1,std::array<double,3>{1,1,1}); }
  void sort() override { g.sort(); }
  std::string at(const V& x, const LV* Q, int thr, bool ir) const override { return both(g,x,Q,thr,ir,0); }
  template<class X> static auto both(const X& g, const V&, const LV* Q, int thr, bool ir, int) -> decltype(g.ir_interpolate_at(*Q,thr),std::string()) { if (ir){ auto [a,b]=g.ir_interpolate_at(*Q,thr); return three(Array<T>(a),Array<R>(b),modes); } return plain(g,*Q,thr,0); }
  template<class X> static auto plain(const X& g, const LV& Q, int thr, int) -> decltype(g.template interpolate_at<false>(Q,thr),std::string()) { auto [a,b]=g.template interpolate_at<false>(Q,thr); return three(Array<T>(a),Array<R>(b),modes); }
  template<class X> static std::string plain(const X& g, const LV& Q, int thr, long){ auto [a,b]=g.ir_interpolate_at(Q,thr); return three(Array<T>(a),Array<R>(b),modes); }
  template<class X> static std::string both(const X& g, const V& x, const LV*, int thr, bool, long){ auto [a,b]=g.interpolate_at(x,thr); return three(Array<T>(a),Array<R>(b),modes); } };
static P solid; static std::unique_ptr<Lat> lat; static std::unique_ptr<BrillouinZone> bz; static std::unique_ptr<Any> grid; static BrillouinZoneConfig conf; static V lo_,hi_;
template<class T, class R> static std::unique_ptr<Any> build(bool zone, const std::string& k, double vol, int a){ auto cfg=approx_float::Config();
  if (zone){ vol=bz->get_ir_polyhedron().volume()/vol;
    if (k=="trellis"){ typedef BrillouinZoneTrellis3<T,R,double> G; return std::make_unique<One<G,T,R,true>>(G(*bz,vol,a!=0,cfg)); }
    if (k=="nest"){ typedef BrillouinZoneNest3<T,R,double> G; return std::make_unique<One<G,T,R,true>>(G(*bz,vol,(ind_t)std::max(a,2),cfg)); }
    typedef BrillouinZoneMesh3<T,R,double> G; return std::make_unique<One<G,T,R,true>>(G(*bz,vol,a,-1,cfg)); }
  vol=solid.volume()/vol;
  if (k=="trellis"){ typedef polytrellis::PolyTrellis<T,R,double,Array2> G; return std::make_unique<One<G,T,R,false>>(G(solid,vol,a!=0,cfg)); }
  if (k=="nest"){ typedef Nest<T,R,double,Array2> G; return std::make_unique<One<G,T,R,false>>(G(solid,vol,(ind_t)std::max(a,2),cfg)); }
  typedef Mesh3<T,R,double,Array2> G; return std::make_unique<One<G,T,R,false>>(G(solid.vertices(),solid.faces().faces(),vol,a,-1,cfg)); }
static std::string ints(const LV& v){ std::string o="["; for (ind_t i=0;i<v.size(0);++i) for (ind_t j=0;j<3;++j) o+=(i+j?",":"")+std::to_string(fine(v.val(i,j))); return o+"]"; }
int main(){
  std::string line, op; int threads=1; std::string sched="[1]";
  while (std::getline(std::cin, line)){
    if (line.empty()) continue;
    std::istringstream in(line); in>>op; auto n=[&](){ return mo::num(in); };
    if (op=="Reset"){ grid.reset(); bz.reset(); lat.reset(); emit::Event("Reset"); continue; }
    if (op=="Sched"){ threads=n(); int seed=n(), every=n(), k=n(); std::vector<int> p; for (int i=0;i<k;++i) p.push_back(n()); (void)seed; (void)every;
#ifdef SHIM
      shim::switches(); shim::regions(); shim::schedule(threads,(unsigned)seed,(unsigned)every,p);
#else
      omp_set_num_threads(threads);
#endif
      continue; }
    if (op=="Box"){ D3 l,h; for (auto& x: l) x=n()/24.; for (auto& x: h) x=n()/24.; lo_=make({l}); hi_=make({h}); solid=bounding_box(make({l,h})); continue; }
    if (op=="Cut"){ D3 x[3]; for (auto& y: x) for (auto& z: y) z=n()/24.; auto left=solid.cut(make({x[0]}),make({x[1]}),make({x[2]})); if (left.volume()>1e-9) solid=left; continue; }
    emit::Event e("Run"); e.f("what",line).f("threads",threads).f("near",op=="At"||op=="ZAt"||op=="Move").f("grid",op=="At"||op=="ZAt"||op=="Fill"?grids+1:0);
    try {
      if (op=="Zone"){ int i=n(); auto g=g6(in); int sn=n(), sd=n(); conf=BrillouinZoneConfig(); conf.primitive(n()); conf.time_reversal(n()); conf.wedge_search(n()); auto l=lens(g); for (auto& x: l) x*=(double)sn/sd; Spacegroup s(i);
        bz.reset(); auto an=angs(g,AngleUnit::radian); auto mk=[&](const Basis& b){ return std::make_unique<Lat>(LengthUnit::inverse_angstrom,l,an,s.hall_symbol,b,true,AngleUnit::radian); };
        try { lat=mk(Basis(std::vector<std::array<double,3>>{{0,0,0}},std::vector<ind_t>{1})); } catch (const std::exception&){ lat=mk(Basis()); }   // an atom at the origin, if there can be just one
        bz=std::make_unique<BrillouinZone>(*lat,conf);
        V f(bz->get_polyhedron().vertices().xyz()), r(bz->get_ir_polyhedron().vertices().xyz()); auto a=shape(f,{},{}), b=shape(r,{},{}); e.f("res",std::vector<long long>{a[0],a[2],b[0],b[2],(long long)bz->get_pointgroup_symmetry().size()}); }
      else if (op=="Grid"||op=="ZGrid"){ std::string k; in>>k; int t=n(); double per=n()/10.; int a=n(); grid.reset(); ++grids; bool z=op=="ZGrid"; if (z && !bz) throw std::runtime_error("no zone"); grid= t==0?build<double,double>(z,k,per,a):t==1?build<double,C>(z,k,per,a):build<C,C>(z,k,per,a); e.f("res",grid->shape()); }
      else if (!grid && op!="Move") e.f("res",std::vector<int>());
      else if (op=="Fill"){ int seed=n(), B=n(), how=n(), like=n(), unit=n(), kind=n(); modes=B; grid->fill(seed,B,how,like,unit,kind); if (how) grid->sort(); e.f("res",std::vector<int>()); }
      else if (op=="At"||op=="ZAt"){ bool z=op=="ZAt"; lcg_=n(); int k=n(), m=n(), ir=n(); V x((ind_t)k,3u); for (ind_t i=0;i<(ind_t)k;++i) for (ind_t j=0;j<3;++j) x.val(i,j)= z? (double)rnd(-2*m,2*m)/m : lo_.val(0,j)+(hi_.val(0,j)-lo_.val(0,j))*rnd(0,m)/m;
        if (z && !ir) { LV Q(LengthUnit::inverse_angstrom,*lat,x), q(LengthUnit::inverse_angstrom,*lat,x); LVec<int> tau(LengthUnit::inverse_angstrom,*lat,bArray<int>(x.size(0),3u)); std::vector<size_t> a,b; bz->ir_moveinto(Q,q,tau,a,b,1); V h(q.hkl()); x=h.decouple(); }
        if (z){ LV Q(LengthUnit::inverse_angstrom,*lat,x); e.raw("res","["+grid->at(x,&Q,threads,ir!=0)+"]"); }
        else { auto in_=solid.contains(x); V y=x.extract(in_); e.raw("res","["+grid->at(y,nullptr,threads,false)+"]"); } }
      else if (op=="Move"){ lcg_=n(); int k=n(), m=n(), ir=n(); if (!bz) throw std::runtime_error("no zone"); V x((ind_t)k,3u); for (ind_t i=0;i<(ind_t)k;++i) for (ind_t j=0;j<3;++j) x.val(i,j)=(double)rnd(-3*m,3*m)/m; LV Q(LengthUnit::inverse_angstrom,*lat,x), q(LengthUnit::inverse_angstrom,*lat,x); LVec<int> tau(LengthUnit::inverse_angstrom,*lat,bArray<int>(x.size(0),3u)); std::vector<size_t> a,b;
        if (ir==2) bz->ir_moveinto_wedge(Q,q,a,threads); else if (ir) bz->ir_moveinto(Q,q,tau,a,b,threads); else bz->moveinto(Q,q,tau,threads);
        std::vector<int> t; for (ind_t i=0;i<tau.size(0);++i) for (ind_t j=0;j<3;++j) t.push_back(tau.val(i,j)); e.raw("res","["+ints(q)+","+emit::val(t)+","+emit::val(a)+","+emit::val(b)+"]"); }
      else BAD_SCRIPT("op "+op);
      e.f("threw",false);
    } catch (const std::exception& x){ if (op=="ZGrid"||op=="Grid") grid.reset(); if (op=="Zone") bz.reset(); e.raw("res","[]").f("threw",true).f("why",std::string(x.what()).substr(0,150)); }
#ifdef SHIM
    e.f("regions",(int)shim::regions()).f("switches",(int)std::min(2000000000l,shim::switches()));
#endif
  }
}
