// Interpolation grids filling a polyhedron: trellis, nest and mesh.
#include <cassert>
#include "gram.hpp"
#include "polyhedron_flex.hpp"
#include "trellis_poly.hpp"
#include "nest.hpp"
#include "mesh.hpp"
#include <memory>
#include <complex>
using namespace brille; using namespace brille::lattice; using namespace brille::polyhedron; using namespace gr;
static const double U=24; static const double W5=1e5, FINE=100;
typedef std::complex<double> C; typedef bArray<double> V; typedef Poly<double,bArray> P;
typedef polytrellis::PolyTrellis<double,C,double,Array2> Tre; typedef Nest<double,C,double,Array2> Nes; typedef Mesh3<double,C,double,Array2> Mes;
static V make(const std::vector<D3>& v){ V o((ind_t)v.size(),3u); for (ind_t i=0;i<v.size();++i) for (ind_t j=0;j<3;++j) o.val(i,j)=v[i][j]; return o; }
static std::string pts_(const V& v, double s){ std::string o="["; for (ind_t i=0;i<v.size(0);++i){ std::vector<long long> k; for (ind_t j=0;j<3;++j) k.push_back(ri(v.val(i,j),s)); o+=(i?",":"")+emit::val(k);} return o+"]"; }
static std::string near_(const V& v, double s){ std::string o="["; for (ind_t i=0;i<v.size(0);++i){ std::vector<long long> k; for (ind_t j=0;j<3;++j) k.push_back((long long)std::nearbyint(v.val(i,j)*s)); o+=(i?",":"")+emit::val(k);} return o+"]"; }
static D3 point(std::istream& in){ D3 x; for (auto& y: x) y=mo::num(in)/U; return x; }
static std::vector<D3> points(std::istream& in){ int n=mo::num(in); std::vector<D3> v; for (int i=0;i<n;++i) v.push_back(point(in)); return v; }
static double tetvol(const V& v, const std::array<ind_t,4>& t){ auto d=[&](int a,int j){ return v.val(t[a],j)-v.val(t[0],j); };
  return (d(1,0)*(d(2,1)*d(3,2)-d(2,2)*d(3,1))-d(1,1)*(d(2,0)*d(3,2)-d(2,2)*d(3,0))+d(1,2)*(d(2,0)*d(3,1)-d(2,1)*d(3,0)))/6; }
// the weights of thin tetrahedra are known to a part in 1e7 or so
static long long whole(double x, const std::string& op){if (op=="Own" && std::fabs(x-std::nearbyint(x))>1e-6) std::cerr << x << "\n";  if (op=="At") return ri(x,1); double r=std::nearbyint(x); return std::fabs(x-r)<0.05 ? (long long)r : 1000000007; }
struct Run {
  P cur; std::string kind="none"; std::unique_ptr<Tre> tre; std::unique_ptr<Nes> nes; std::unique_ptr<Mes> mes;
  int B=1, Yv=1, Yc=1; std::vector<std::vector<std::array<int,4>>> cv, cc; std::vector<int> ph;       // the fields
  std::vector<std::vector<std::vector<long long>>> tv;
  V verts() const { return tre?tre->vertices():nes?nes->vertices():mes->get_mesh_xyz(); }
  ind_t count() const { return tre?tre->vertex_count():nes?nes->vertex_count():mes->vertex_count(); }
  template<class F> auto on(F f){ return tre?f(*tre):nes?f(*nes):f(*mes); }
  static double value(const std::array<int,4>& c, const V& x, ind_t i){ return c[0]*x.val(i,0)+c[1]*x.val(i,1)+c[2]*x.val(i,2)+c[3]; }
  void step(const std::string& op, std::istream& in, emit::Event& e){
    auto n=[&](){ return mo::num(in); };
    if (op=="Box"){ D3 l=point(in), h=point(in); std::vector<long long> a,b; for (auto x: l) a.push_back(ri(x,U)); for (auto x: h) b.push_back(ri(x,U)); e.raw("box","["+emit::val(a)+","+emit::val(b)+"]"); cur=bounding_box(make({l,h})); kind="none"; }
    else if (op=="Cut"){ auto a=point(in), b=point(in), c=point(in); auto A=make({a}), Bp=make({b}), Cp=make({c}); e.raw("plane",pts_(make({a,b,c}),U)); auto left=cur.cut(A,Bp,Cp); double w=left.volume(); e.f("vol",ri(w*6*U*U*U)); if (w>1e-9) cur=left; } // a cut that leaves nothing is not made
    else if (op=="Grid"){ in>>kind; double vol=n()/1000.; e.f("kind",kind).f("size",(long long)std::nearbyint(vol*1000)); tre.reset(); nes.reset(); mes.reset();
      std::vector<std::vector<ind_t>> cells; std::vector<std::array<ind_t,4>> tets; V v(0u,3u);
      if (kind=="trellis"){ int tri=n(); e.f("tri",tri); tre=std::make_unique<Tre>(cur,vol,tri!=0,approx_float::Config()); v=tre->vertices();
        auto sz=tre->size(); e.f("bins",std::vector<long long>{sz[0],sz[1],sz[2]});
        std::string nodes="["; bool first=true; long long nv=0;
        for (ind_t k=0;k<sz[2];++k) for (ind_t j=0;j<sz[1];++j) for (ind_t i=0;i<sz[0];++i){ std::array<ind_t,3> s{i,j,k}; auto t=tre->node_at_type(s); ind_t id=i+sz[0]*(j+sz[1]*k); nodes+=first?"":","; first=false;
          auto box=tre->subscripted_node_poly(s); auto bv=box.vertices(); std::vector<long long> lo,hi; for (ind_t q=0;q<3;++q){ lo.push_back(ri(bv.min(0).val(0,q),U)); hi.push_back(ri(bv.max(0).val(0,q),U)); }
          std::string c="["; std::string ty="null"; double w=0; std::vector<std::vector<ind_t>> mine;
          if (t==NodeType::cube){ ty="cube"; auto x=tre->cube_node(id); mine.push_back(x.vertices()); w=x.volume(v); }
          else if (t==NodeType::poly){ ty="poly"; auto x=tre->poly_node(id); for (auto& q: x.vertices_per_tetrahedron()){ mine.emplace_back(q.begin(),q.end()); } w=x.volume(v); }
          for (size_t q=0;q<mine.size();++q){ c+=(q?",":"")+emit::val(mine[q]); cells.push_back(mine[q]); }
          auto nb=tre->node_neighbours(id);
          nodes+="{\"type\":"+emit::val(ty)+",\"lo\":"+emit::val(lo)+",\"hi\":"+emit::val(hi)+",\"cells\":"+c+"],\"vol\":"+emit::val(ri(std::fabs(w)*6*U*U*U))+",\"near\":"+emit::val(nb)+"}"; }
        auto tl=tre->vertices_per_tetrahedron(); e.raw("nodes",nodes+"]").f("total",ri(tre->total_node_volume()*6*U*U*U)).f("expect",(int)tre->expected_vertex_count()).f("ntet",(int)tl.size()).f("ncv",(int)tre->cube_vertices().size(0)).f("npv",(int)tre->poly_vertices().size(0)); }
      else if (kind=="nest"){ int nb=n(), rho=n(); e.f("branch",nb); if (rho){ int density=std::max(1,(int)std::nearbyint(cur.volume()/vol)); vol=cur.volume()/density; nes=std::make_unique<Nes>(cur,(ind_t)density,(ind_t)nb,approx_float::Config()); } else nes=std::make_unique<Nes>(cur,vol,(ind_t)nb,approx_float::Config());
        v=nes->vertices(); tets=nes->tetrahedra(); auto lf=nes->vertex_is_leaf(); std::vector<int> b; for (auto x: lf) b.push_back(x?1:0); e.f("leaf",b); }
      else { int layers=n(); e.f("layers",layers); mes=std::make_unique<Mes>(cur.vertices(),cur.faces().faces(),vol,layers,-1,approx_float::Config()); v=mes->get_mesh_xyz(); auto t=mes->get_mesh_tetrehedra(); for (ind_t i=0;i<t.size(0);++i) tets.push_back({t.val(i,0),t.val(i,1),t.val(i,2),t.val(i,3)}); }
      e.f("nv",(int)count());
      if (kind=="trellis") e.raw("verts",pts_(v,U));
      else { // points that other tetrahedra have inside them or on their faces: the pieces of neighbours may differ in a nest
        std::vector<int> hang; for (ind_t i=0;i<v.size(0);++i){ bool h=false; for (auto& t: tets){ if (h || i==t[0]||i==t[1]||i==t[2]||i==t[3]) continue; double w=std::fabs(tetvol(v,t)), u=0; for (int q=0;q<4;++q){ auto z=t; z[q]=i; u+=std::fabs(tetvol(v,z)); } h=u<w*(1+1e-6); } hang.push_back(h); } e.f("hang",hang);
        std::vector<long long> rel; double sum=0; for (auto& t: tets){ cells.emplace_back(t.begin(),t.end()); double w=std::fabs(tetvol(v,t)); sum+=w; rel.push_back((long long)std::nearbyint(w/vol*1e6)); } e.f("rel",rel).f("total",ri(sum*6*U*U*U)); e.raw("verts",near_(v,U*FINE)).raw("corners",[&](){ std::vector<int> ok; auto pv=cur.vertices(); for (ind_t i=0;i<pv.size(0);++i) ok.push_back((int)norm(v-pv.view(i)).is(brille::cmp::le,1e-9).count()); return emit::val(ok); }()); }
      if (kind!="trellis") { std::string c="["; for (size_t q=0;q<cells.size();++q) c+=(q?",":"")+emit::val(cells[q]); e.raw("cells",c+"]"); } }
    else if (op=="Where"){ auto p=points(in); e.raw("pts",pts_(make(p),U)); std::string o="[",w="["; bool first=true; V x=make(p);
      for (ind_t i=0;i<x.size(0);++i){ std::vector<std::pair<ind_t,double>> iw; std::vector<long long> sub; 
        if (tre){ try { iw=tre->indices_weights(x.extract(i)); } catch (const std::exception&){ iw.clear(); } auto s=tre->node_subscript(x.extract(i)); for (auto q: s) sub.push_back(q); }
        else if (nes) iw=nes->indices_weights(x.extract(i));
        else { // a mesh does not give its weights away: recover them from a field that tells its points apart
          break; }
        std::vector<long long> id, we; for (auto& q: iw){ id.push_back(q.first); we.push_back((long long)std::nearbyint(q.second*W5)); }
        o+=(first?"":",")+std::string("[")+emit::val(id)+","+emit::val(we)+"]"; w+=(first?"":",")+emit::val(sub); first=false; }
      e.raw("iw",o+"]").raw("sub",w+"]"); }
    else if (op=="Fill"){ // linear fields
      B=n(); Yv=n(); Yc=n(); int seed=n(), shape=n(); std::srand(seed); cv.clear(); cc.clear(); ph.clear(); auto rnd=[](int k){ return std::rand()%(2*k+1)-k; };
      for (int b=0;b<B;++b){ cv.emplace_back(); cc.emplace_back(); ph.push_back(std::rand()%4); for (int y=0;y<Yv;++y) cv[b].push_back({rnd(5),rnd(5),rnd(5),rnd(50)}); for (int y=0;y<Yc;++y) cc[b].push_back({rnd(5),rnd(5),rnd(5),1000+rnd(9)}); }
      auto js=[](const std::vector<std::vector<std::array<int,4>>>& c){ std::string o="["; for (size_t i=0;i<c.size();++i){ o+=i?",[":"["; for (size_t j=0;j<c[i].size();++j) o+=(j?",":"")+emit::val(c[i][j]); o+="]"; } return o+"]"; };
      e.raw("cv",js(cv)).raw("cc",js(cc)).f("ph",ph).f("shape",shape); V x=verts();
      const C i4[4]={{1,0},{0,1},{-1,0},{0,-1}};
      fill([&](ind_t i,int b,int y){ return value(cv[b][y],x,i); },[&](ind_t i,int b,int y){ return i4[ph[b]]*value(cc[b][y],x,i); },shape); }
    else if (op=="Table"){ // any numbers at all
      B=n(); Yv=n(); Yc=n(); int seed=n(), shape=n(); std::srand(seed); tv.clear(); for (ind_t i=0;i<count();++i){ tv.emplace_back(); for (int k=0;k<B;++k){ tv.back().emplace_back(); for (int y=0;y<Yv+2*Yc;++y) tv.back().back().push_back(std::rand()%5==0?0:std::rand()%2001-1000); } }
      std::string o="["; for (size_t i=0;i<tv.size();++i) o+=(i?",":"")+emit::val(tv[i]); e.raw("table",o+"]").f("yv",Yv).f("yc",Yc).f("shape",shape);
      fill([&](ind_t i,int b,int y){ return (double)tv[i][b][y]; },[&](ind_t i,int b,int y){ return C(tv[i][b][Yv+2*y],tv[i][b][Yv+2*y+1]); },shape); }
    else if (op=="At"||op=="Own"){ int th; V x(0u,3u); if (op=="At"){ auto p=points(in); th=n(); x=make(p); e.raw("pts",pts_(x,U)); }
      else { th=n(); x=verts(); if (th==0) x=x.decouple(); e.f("nv",(int)x.size(0)); }
      e.f("threads",th); std::tuple<Array<double>,Array<C>> r; if (th>=0) r=on([&](auto& g){ return g.interpolate_at(x,th); }); else r=on([&](auto& g){ return g.interpolate_at(x); });
      auto& a=std::get<0>(r); auto& c=std::get<1>(r); std::vector<long long> s1,s2; for (auto q: a.shape()) s1.push_back(q); for (auto q: c.shape()) s2.push_back(q); e.f("vshape",s1).f("cshape",s2);
      Array2<double> a2(a); Array2<C> c2(c); std::string va="[", vc="["; double sc= op=="At"?U:1;
      for (ind_t i=0;i<x.size(0);++i){ std::vector<long long> k, m; for (int q=0;q<B*Yv;++q) k.push_back(whole(a2.val(i,q)*sc,op)); for (int q=0;q<B*Yc;++q){ m.push_back(whole(c2.val(i,q).real()*sc,op)); m.push_back(whole(c2.val(i,q).imag()*sc,op)); } va+=(i?",":"")+emit::val(k); vc+=(i?",":"")+emit::val(m); }
      e.raw("vals",va+"]").raw("vecs",vc+"]"); }
    else if (op=="Outside"){ auto p=points(in); int th=n(); e.raw("pts",pts_(make(p),U)).f("threads",th); std::vector<int> ref; for (auto& q: p){ V x=make({q}); int r=0; try { if (th>=0) on([&](auto& g){ return g.interpolate_at(x,th); }); else on([&](auto& g){ return g.interpolate_at(x); }); } catch (const std::exception&){ r=1; } ref.push_back(r); } e.f("refused",ref); }
    else BAD_SCRIPT("operation " << op);
  }
  // the data may be handed over in any of the documented shapes
  template<class F, class G> void fill(F f, G g, int shape){ ind_t N=count();
    auto shp=[&](int Y){ std::vector<ind_t> s{N,(ind_t)B,(ind_t)Y}; if (shape==1&&Y==9) s={N,(ind_t)B,1u,3u,3u}; else if (shape>=1&&Y%3==0) s={N,(ind_t)B,(ind_t)(Y/3),3u}; else if (shape==2&&B==1) s={N,(ind_t)Y}; else if (shape==3&&B==1&&Y==1) s={N}; return s; };
    auto el=[&](int Y){ return (shape>=1&&Y%3==0) ? (Y==9&&shape==1 ? std::array<ind_t,3>{0,0,9} : std::array<ind_t,3>{0,(ind_t)Y,0}) : Y>=10 ? std::array<ind_t,3>{(ind_t)(Y-9),0,9} : Y>3 ? std::array<ind_t,3>{(ind_t)(Y-3),3,0} : std::array<ind_t,3>{(ind_t)Y,0,0}; };
    Array<double> a(shp(Yv)); Array<C> c(shp(Yc)); Array2<double> a2(a); Array2<C> c2(c);
    for (ind_t i=0;i<N;++i) for (int b=0;b<B;++b){ for (int y=0;y<Yv;++y) a2.val(i,b*Yv+y)=f(i,b,y); for (int y=0;y<Yc;++y) c2.val(i,b*Yc+y)=g(i,b,y); }
    on([&](auto& gr_){ gr_.replace_value_data(a,el(Yv),RotatesLike::vector,LengthUnit::real_lattice); gr_.replace_vector_data(c,el(Yc),RotatesLike::vector,LengthUnit::real_lattice); return 0; }); }
};
int main(){
  std::string line, op; std::unique_ptr<Run> r;
  while (std::getline(std::cin,line)){
    if (line.empty()) continue;
    std::istringstream in(line); in>>op;
    if (op=="Reset"){ r=std::make_unique<Run>(); emit::Event("Reset"); continue; }
    emit::Event e(op);
    try { r->step(op,in,e); e.f("threw",false); }
    catch (const std::exception& x){ std::string w(x.what()); e.f("threw",true).f("what_",w.substr(0,200)); }
  }
}
