// Grids over (irreducible) Brillouin zones filled with linear fields and interpolated anywhere in reciprocal space.
#include <cassert>
#include "gram.hpp"
#include "spg_database.hpp"
#include "transform.hpp"
#include "bz.hpp"
#include "bz_trellis.hpp"
#include "bz_nest.hpp"
#include "bz_mesh.hpp"
#include <memory>
#include <complex>
using namespace brille; using namespace brille::lattice; using namespace gr;
typedef Lattice<double> Lat; typedef LVec<double> LV; typedef std::complex<double> C;
static LengthUnit QU=LengthUnit::inverse_angstrom;
static const double FINE=1e5;
static std::unique_ptr<BrillouinZone> bz; static std::unique_ptr<Lat> lat; static G6 g; static double scale;
template<class T> static std::string hkl(const LVec<T>& v, double s=1){ std::string o="["; for (ind_t i=0;i<v.size(0);++i){ o+=i?",":""; std::vector<long long> k; for (ind_t j=0;j<3;++j) k.push_back(ri((double)v.val(i,j),s)); o+=emit::val(k);} return o+"]"; }
static LV pts(std::istream& in, const Lat& l, int n, double m){ LV v(QU,l,bArray<double>(n,3u)); for (int i=0;i<n;++i) for (int j=0;j<3;++j) v.val(i,j)=mo::num(in)/m; return v; }
struct Field { int B=0, s=0, v=0, m=0, rl=0, lu=3; bool lin=true; std::vector<std::array<int,4>> c; int Y() const { return s+3*v+9*m; } };
static RotatesLike rots(int k){ return k==0?RotatesLike::vector:k==1?RotatesLike::pseudovector:RotatesLike::Gamma; }
static LengthUnit unit_(int k){ return k==1?LengthUnit::angstrom:k==2?LengthUnit::inverse_angstrom:k==3?LengthUnit::real_lattice:LengthUnit::reciprocal_lattice; }
static Field read(std::istream& in){ Field f; auto n=[&](){ return mo::num(in); }; f.B=n(); f.s=n(); f.v=n(); f.m=n(); f.rl=n(); f.lu=n(); f.lin=n(); for (int i=0;i<f.B*f.Y();++i){ std::array<int,4> a; for (auto& x: a) x=n(); f.c.push_back(a); } return f; }
static std::string show(const Field& f){ std::string o="["; for (int b=0;b<f.B;++b){ o+=b?",[":"["; for (int y=0;y<f.Y();++y) o+=(y?",":"")+emit::val(f.c[b*f.Y()+y]); o+="]"; } return "{\"b\":"+std::to_string(f.B)+",\"s\":"+std::to_string(f.s)+",\"v\":"+std::to_string(f.v)+",\"m\":"+std::to_string(f.m)+",\"rl\":"+std::to_string(f.rl)+",\"lu\":"+std::to_string(f.lu)+",\"lin\":"+(f.lin?"1":"0")+",\"c\":"+o+"]}"; }
static void put(double& x, const std::array<int,4>& c, const double* q){ x=c[0]*q[0]+c[1]*q[1]+c[2]*q[2]+c[3]; }
static void put(C& x, const std::array<int,4>& c, const double* q){ (void)q; x=C(c[0],c[1]); }   // complex fields do not depend on q
// components of vectors and matrices of lattice units to and from Cartesian ones
template<class T> static void change(T* d, const Field& f, bool to){
  if (f.lu!=1) return;
  auto A=lat->to_xyz(LengthUnit::angstrom), I=lat->from_xyz(LengthUnit::angstrom); if (!to) std::swap(A,I); T t[9], u[9]; int o=f.s;
  for (int k=0;k<f.v;++k,o+=3){ for (int i=0;i<3;++i){ t[i]=0; for (int j=0;j<3;++j) t[i]+=A[3*i+j]*d[o+j]; } for (int i=0;i<3;++i) d[o+i]=t[i]; }
  for (int k=0;k<f.m;++k,o+=9){ for (int i=0;i<3;++i) for (int j=0;j<3;++j){ t[3*i+j]=0; for (int h=0;h<3;++h) t[3*i+j]+=A[3*i+h]*d[o+3*h+j]; }
    for (int i=0;i<3;++i) for (int j=0;j<3;++j){ u[3*i+j]=0; for (int h=0;h<3;++h) u[3*i+j]+=t[3*i+h]*I[3*h+j]; } for (int i=0;i<9;++i) d[o+i]=u[i]; } }
template<class T> static Array<T> fill(const Field& f, const bArray<double>& q, int dims){
  bArray<T> d(q.size(0),(ind_t)(f.B*f.Y())); 
  for (ind_t i=0;i<q.size(0);++i) for (int b=0;b<f.B;++b){ for (int y=0;y<f.Y();++y) put(d.val(i,b*f.Y()+y),f.c[b*f.Y()+y],q.ptr(i)); change(d.ptr(i,b*f.Y()),f,true); }
  Array<T> a(d,{q.size(0),(ind_t)(f.B*f.Y())});
  if (dims>=3 && f.v && !f.s && !f.m) return Array<T>(d,{q.size(0),(ind_t)f.B,(ind_t)f.v,3u});
  if (dims>=3 && f.m && !f.s && !f.v) return Array<T>(d,{q.size(0),(ind_t)f.B,(ind_t)f.m,3u,3u});
  if (dims>=3) return Array<T>(d,{q.size(0),(ind_t)f.B,(ind_t)f.Y()});
  return a; }
static long long one(double x, double m){ return ri(x,m); }
static std::string num(double x, double m){ return std::to_string(one(x,m)); }
static std::string num(const C& x, double){ return "["+std::to_string((long long)std::nearbyint(x.real()*FINE))+","+std::to_string((long long)std::nearbyint(x.imag()*FINE))+"]"; }
template<class T> static std::string values(const Array<T>& a, const Field& f, int m){
  bArray<T> d(a); bArray<T> e=d.decouple(); std::string o="[";
  if ((int)e.size(1)!=f.B*f.Y()) return "[]";
  for (ind_t i=0;i<e.size(0);++i){ o+=i?",[":"["; for (int b=0;b<f.B;++b){ change(e.ptr(i,b*f.Y()),f,false); o+=b?",[":"["; for (int y=0;y<f.Y();++y) o+=(y?",":"")+num(e.val(i,b*f.Y()+y),m); o+="]"; } o+="]"; }
  return o+"]"; }
struct Any { virtual ~Any(){} virtual bArray<double> where() const=0; virtual void fill(const Field& a, const Field& b, int dims)=0; virtual std::pair<std::string,std::string> at(const LV& Q, const Field& a, const Field& b, int m, int thr, bool ir) const=0; };
template<class Gd, class T, class R> struct One: Any { Gd grid; One(Gd&& x): grid(std::move(x)){}
  bArray<double> where() const override { return get(grid,0); }
  template<class X> static auto get(const X& x, int) -> decltype(x.get_hkl()) { return x.get_hkl(); }
  template<class X> static auto get(const X& x, long) -> decltype(x.get_mesh_hkl()) { return x.get_mesh_hkl(); }
  static std::array<ind_t,3> el(const Field& f){ return {(ind_t)f.s,(ind_t)(3*f.v),(ind_t)(9*f.m)}; }
  void fill(const Field& a, const Field& b, int dims) override { auto h=where(); grid.replace_value_data(::fill<T>(a,h,dims),el(a),rots(a.rl),unit_(a.lu)); grid.replace_vector_data(::fill<R>(b,h,dims),el(b),rots(b.rl),unit_(b.lu)); }
  template<class X> static auto plain(const X& x, const LV& Q, int thr, int) -> decltype(x.interpolate_at(Q,thr)) { return x.interpolate_at(Q,thr); }
  std::pair<std::string,std::string> at(const LV& Q, const Field& a, const Field& b, int m, int thr, bool ir) const override { auto [x,y]= ir?grid.ir_interpolate_at(Q,thr):flat(grid,Q,thr,0); return {values(x,a,m),values(y,b,m)}; }
  template<class X> static auto flat(const X& x, const LV& Q, int thr, int) -> decltype(x.template interpolate_at<false>(Q,thr)) { return x.template interpolate_at<false>(Q,thr); }
  template<class X> static std::tuple<Array<T>,Array<R>> flat(const X&, const LV&, int, long){ BAD_SCRIPT("no such interpolation"); std::abort(); } };
static std::unique_ptr<Any> grid; static Field fa, fb; static int type;
template<class T, class R> static std::unique_ptr<Any> build(const std::string& kind, double vol, int k){
  if (kind=="trellis") return std::make_unique<One<BrillouinZoneTrellis3<T,R,double>,T,R>>(BrillouinZoneTrellis3<T,R,double>(*bz,vol,k!=0,approx_float::Config()));
  if (kind=="nest") return std::make_unique<One<BrillouinZoneNest3<T,R,double>,T,R>>(BrillouinZoneNest3<T,R,double>(*bz,vol,(ind_t)(k?k:5),approx_float::Config()));
  return std::make_unique<One<BrillouinZoneMesh3<T,R,double>,T,R>>(BrillouinZoneMesh3<T,R,double>(*bz,vol,k,-1,approx_float::Config())); }
int main(){
  std::string line, op;
  while (std::getline(std::cin, line)){
    if (line.empty()) continue;
    std::istringstream in(line); in>>op; auto n=[&](){ return mo::num(in); };
    if (op=="Reset"){ grid.reset(); bz.reset(); lat.reset(); emit::Event("Reset"); continue; }
    if (op!="Zone" && !bz) continue;                  // no irreducible zone was found
    if ((op!="Zone"&&op!="Grid") && !grid) continue;
    emit::Event e(op);
    try {
      if (op=="Zone"){ // hall, metric, how, scale, primitive, time reversal, wedge, atoms
        grid.reset(); bz.reset(); int i=n(); g=g6(in); int sn=n(), sd=n(); scale=(double)sn/sd; BrillouinZoneConfig c; int pr=n(), trv=n(), w=n(); c.primitive(pr); c.time_reversal(trv); c.wedge_search(w);
        int ns=n(); std::vector<std::array<double,3>> pos; std::vector<ind_t> typ; std::vector<std::array<long long,3>> p24; Spacegroup s(i); auto sym=s.get_spacegroup_symmetry();
        for (int a=0;a<ns;++a){ int t=n(), shift=n(); std::array<int,3> p={n(),n(),n()}; std::vector<std::array<long long,3>> orb;
          for (ind_t k=0;k<sym.size();++k){ auto M=sym.getm(k); auto W=M.getr(); auto t0=M.gett(); std::array<long long,3> x; for (int r=0;r<3;++r){ x[r]=(long long)std::nearbyint(24*t0[r]); for (int q=0;q<3;++q) x[r]+=W[3*r+q]*p[q]; x[r]=((x[r]%24)+24)%24; }
            bool has=false; for (auto& o: orb) has=has||o==x; for (auto& o: p24) has=has||(o[0]%24+24)%24==x[0]&&(o[1]%24+24)%24==x[1]&&(o[2]%24+24)%24==x[2]; if (!has) orb.push_back(x); }
          if (p24.size()+orb.size()<=8) for (size_t k=0;k<orb.size();++k){ auto x=orb[k]; if (shift) for (int r=0;r<3;++r) x[r]+=24*(((int)k*(r+1)+shift)%3-1); p24.push_back(x); pos.push_back({x[0]/24.,x[1]/24.,x[2]/24.}); typ.push_back((ind_t)t); } }
        auto l=lens(g); for (auto& x: l) x*=scale;
        lat=std::make_unique<Lat>(QU,l,angs(g,AngleUnit::radian),s.hall_symbol,Basis(pos,typ),true,AngleUnit::radian);
        std::string at="["; for (size_t k=0;k<p24.size();++k) at+=(k?",":"")+std::string("{\"p\":")+emit::val(p24[k])+",\"t\":"+std::to_string(typ[k])+"}";
        auto ls=lat->spacegroup_symmetry(); std::string ops="["; for (ind_t k=0;k<ls.size();++k){ auto M=ls.getm(k); std::vector<long long> tt; for (auto x: M.gett()) tt.push_back(ri(x,24)); ops+=(k?",":"")+std::string("{\"W\":")+emit::val(M.getr())+",\"w\":"+emit::val(tt)+"}"; }
        e.f("i",i).f("prim",pr).f("tr",trv).f("search",w).raw("atoms",at+"]").raw("motions",pos.empty()?"[]":ops+"]").f("ok",true);
        bz=std::make_unique<BrillouinZone>(*lat,c); auto ps=bz->get_pointgroup_symmetry(); e.raw("ops",mo::mats(ps.getall())).f("found",true);
      } else if (op=="Grid"){ std::string kind; in>>kind; type=n(); double per=n(); int k=n(); grid.reset(); e.f("kind",kind).f("type",type);
        double vol=bz->get_ir_polyhedron().volume()/per;
        grid= type==0?build<double,double>(kind,vol,k):type==1?build<double,C>(kind,vol,k):build<C,C>(kind,vol,k);
        e.f("n",(int)grid->where().size(0)).f("threw",false);
      } else if (op=="Fill"){ int dims=n(); fa=read(in); fb=read(in); e.raw("a",show(fa)).raw("b",show(fb)).f("type",type); grid->fill(fa,fb,dims); e.f("threw",false);
      } else if (op=="At"||op=="Flat"){ int m=n(), thr=n(), np=n(); e.f("m",m).f("thr",thr); LV Q=pts(in,*lat,np,m); e.raw("Q",hkl(Q,m));
        LV q(QU,*lat,0u); LVec<int> tau(QU,*lat,0u); std::vector<size_t> R,I; auto ps=bz->get_pointgroup_symmetry(); std::vector<mo::M9> Rm;
        if (op=="At"){ bz->ir_moveinto(Q,q,tau,R,I,thr); for (auto x: R) Rm.push_back(ps.get(x)); } else { bz->moveinto(Q,q,tau,thr); Rm.assign(np,mo::M9{1,0,0,0,1,0,0,0,1}); }
        e.raw("q",hkl(q,m)).raw("tau",hkl(tau)).raw("R",mo::mats(Rm));
        try { auto [x,y]=grid->at(Q,fa,fb,m,thr,op=="At"); e.raw("x",x).raw("y",y).f("threw",false); } catch (const std::exception& x){ e.raw("x","[]").raw("y","[]").f("threw",true).f("why",std::string(x.what()).substr(0,200)); }
      } else BAD_SCRIPT("op "+op);
    } catch (const std::exception& x){ if (op=="Zone") e.f("found",false).raw("ops","[]"); else e.f("threw",true); e.f("why",std::string(x.what()).substr(0,200)); grid.reset(); if (op=="Zone") bz.reset(); }
  }
}
