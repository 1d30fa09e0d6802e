// Sorting the modes held at the points of a graph or of a grid.
#include <cassert>
#include "gram.hpp"
#include "polyhedron_flex.hpp"
#include "trellis_poly.hpp"
#include "nest.hpp"
#include "mesh.hpp"
#include <memory>
#include <complex>
#include <omp.h>
using namespace brille; using namespace brille::lattice; using namespace brille::polyhedron; using namespace gr;
typedef std::complex<double> C; typedef bArray<double> V; typedef Poly<double,bArray> P;
struct Info { int cplx=0; std::array<int,3> e{0,0,0}; int f=0; int dims=2; };
static unsigned long long lcg_=1; static int rnd(int a, int b){ lcg_=lcg_*6364136223846793005ull+1442695040888963407ull; return a+(int)((lcg_>>33)%(unsigned)(b-a+1)); }
typedef std::vector<std::vector<std::vector<std::array<int,2>>>> D4;            // points, modes, elements, (real, imaginary)
// the phase of a mode is one of 1, i, -1, -i; vectors whose angles have to be known are axes and diagonals
static D4 make(int n, int B, const Info& I, int kind){
  int Y=I.e[0]+3*I.e[1]+9*I.e[2]; D4 d(n); std::vector<std::vector<int>> base(B,std::vector<int>(Y)); for (auto& b: base) for (auto& y: b) y=rnd(-2,2);
  for (int p=0;p<n;++p){ std::vector<int> o(B); for (int b=0;b<B;++b) o[b]=b; for (int b=B-1;b>0;--b) std::swap(o[b],o[rnd(0,b)]);
    for (int b=0;b<B;++b){ std::vector<int> x(Y); for (int y=0;y<Y;++y) x[y]= kind==0?rnd(-2,2):base[o[b]][y]+(rnd(0,5)==0?1:0);
      if (I.f>=3 && I.e[1]==1){ int* v=x.data()+I.e[0]; v[0]=v[1]=v[2]=0; int s=rnd(1,2)*(rnd(0,1)?1:-1); int a=rnd(0,2); v[a]=s; if (rnd(0,1)){ v[(a+1+rnd(0,1))%3]=rnd(0,1)?s:-s; } if (rnd(0,15)==0) v[0]=v[1]=v[2]=0; }
      int ph=I.cplx?rnd(0,3):0; std::vector<std::array<int,2>> z; for (int y: x) z.push_back(ph==0?std::array<int,2>{y,0}:ph==1?std::array<int,2>{0,y}:ph==2?std::array<int,2>{-y,0}:std::array<int,2>{0,-y}); d[p].push_back(z); } }
  return d; }
static void set(double& x, const std::array<int,2>& z){ x=z[0]; }
static void set(C& x, const std::array<int,2>& z){ x=C(z[0],z[1]); }
template<class T> static Array<T> array(const D4& d, const Info& I){ ind_t n=d.size(), B=d[0].size(), Y=d[0][0].size(); bArray<T> a(n,B*Y);
  for (ind_t p=0;p<n;++p) for (ind_t b=0;b<B;++b) for (ind_t y=0;y<Y;++y) set(a.val(p,b*Y+y),d[p][b][y]);
  if (I.dims>2 && !I.e[0] && !I.e[2]) return Array<T>(a,{n,B,Y/3,3u});
  if (I.dims>2 && !I.e[0] && !I.e[1]) return Array<T>(a,{n,B,Y/9,3u,3u});
  if (I.dims>2) return Array<T>(a,{n,B,Y});
  return Array<T>(a,{n,B*Y}); }
static std::string num(double x){ return "["+std::to_string(ri(x,1))+",0]"; }
static std::string num(const C& x){ return "["+std::to_string(ri(x.real(),1))+","+std::to_string(ri(x.imag(),1))+"]"; }
template<class T> static std::string row(const bArray<T>& a, ind_t B){ std::string o="["; ind_t Y=a.size(1)/B; for (ind_t b=0;b<B;++b){ o+=b?",[":"["; for (ind_t y=0;y<Y;++y) o+=(y?",":"")+num(a.val(0,b*Y+y)*8.); o+="]"; } return o+"]"; }
template<class T, class R> struct Bare: DualInterpolator<T,R> { static const PermutationTable& table(const DualInterpolator<T,R>& d){ return d.*(&Bare::permutation_table_); } const DualInterpolator<T,R>& data() const { return *this; } };
struct Any { virtual ~Any(){} virtual void fill(bool vec, const D4& d, const Info& I)=0; virtual void cost(bool vec, int f, const std::array<double,3>& w)=0; virtual void sort()=0;
  virtual std::set<size_t> keys() const=0; virtual std::vector<ind_t> get(ind_t i, ind_t j) const=0; virtual void at(const std::vector<std::pair<ind_t,double>>& iw, emit::Event& e) const=0; };
template<class G, class T, class R> struct One: Any { G g; One(G&& x): g(std::move(x)){}
  void fill(bool vec, const D4& d, const Info& I) override { std::array<ind_t,3> el{(ind_t)I.e[0],(ind_t)(3*I.e[1]),(ind_t)(9*I.e[2])};
    if (vec) g.replace_vector_data(array<R>(d,I),el,RotatesLike::vector,LengthUnit::real_lattice); else g.replace_value_data(array<T>(d,I),el,RotatesLike::vector,LengthUnit::real_lattice); }
  void cost(bool vec, int f, const std::array<double,3>& w) override { if (vec) g.set_vector_cost_info(0,f,w); else g.set_value_cost_info(0,f,w); }
  void sort() override { g.sort(); }
  std::set<size_t> keys() const override { return Bare<T,R>::table(g.data()).keys(); }
  std::vector<ind_t> get(ind_t i, ind_t j) const override { return g.data().get_permutation(i,j); }
  void at(const std::vector<std::pair<ind_t,double>>& iw, emit::Event& e) const override { auto& d=g.data(); ind_t B=d.branches();
    bArray<T> x(1u,(ind_t)(d.values().data().size(1)),T(0)); bArray<R> y(1u,(ind_t)(d.vectors().data().size(1)),R(0)); d.interpolate_at(iw,x,y,0u); e.raw("vals",row(x,B)).raw("vecs",row(y,B)); } };
static std::unique_ptr<Any> own; static int n_, cv, cc; static std::string cells_;
static V pts(const std::vector<D3>& v){ V o((ind_t)v.size(),3u); for (ind_t i=0;i<v.size();++i) for (ind_t j=0;j<3;++j) o.val(i,j)=v[i][j]; return o; }
template<class T, class R> static std::unique_ptr<Any> build(const std::string& kind, std::istream& in){
  auto n=[&](){ return mo::num(in); };
  if (kind=="graph"){ n_=n(); int k=n(); std::set<size_t> keys; std::vector<std::vector<int>> pr; for (int q=0;q<k;++q){ int i=n(), j=n(); keys.insert((size_t)i*n_+j); keys.insert((size_t)j*n_+i); pr.push_back({i,j}); }
    cells_=emit::val(pr); auto o=std::make_unique<One<Bare<T,R>,T,R>>(Bare<T,R>()); o->g.initialize_permutation_table(n_,keys); return o; }
  int a=n(), b=n(), c=n(); double vol=n()/1000.; int k=n(); P box=bounding_box(pts({{-1.*a,-1.*b,-1.*c},{1.,1.,1.}})); std::vector<std::vector<ind_t>> cells;
  if (kind=="trellis"){ typedef polytrellis::PolyTrellis<T,R,double,Array2> G; auto o=std::make_unique<One<G,T,R>>(G(box,vol,k!=0,approx_float::Config())); auto sz=o->g.size(); n_=o->g.vertex_count();
    for (ind_t z=0;z<sz[2];++z) for (ind_t y=0;y<sz[1];++y) for (ind_t x=0;x<sz[0];++x){ std::array<ind_t,3> s{x,y,z}; auto t=o->g.node_at_type(s); ind_t id=x+sz[0]*(y+sz[1]*z);
      if (t==NodeType::cube) cells.push_back(o->g.cube_node(id).vertices()); else if (t==NodeType::poly){ auto pn=o->g.poly_node(id); for (auto& q: pn.vertices_per_tetrahedron()) cells.emplace_back(q.begin(),q.end()); } }
    cells_=emit::val(cells); return o; }
  if (kind=="nest"){ typedef Nest<T,R,double,Array2> G; auto o=std::make_unique<One<G,T,R>>(G(box,vol,(ind_t)std::max(2,k),approx_float::Config())); n_=o->g.vertex_count(); for (auto& t: o->g.tetrahedra()) cells.emplace_back(t.begin(),t.end()); cells_=emit::val(cells); return o; }
  typedef Mesh3<T,R,double,Array2> G; auto o=std::make_unique<One<G,T,R>>(G(box.vertices(),box.faces().faces(),vol,k,-1,approx_float::Config())); n_=o->g.vertex_count(); auto t=o->g.get_mesh_tetrehedra(); for (ind_t i=0;i<t.size(0);++i) cells.push_back({t.val(i,0),t.val(i,1),t.val(i,2),t.val(i,3)}); cells_=emit::val(cells); return o; }
int main(){
  std::string line, op;
  while (std::getline(std::cin, line)){
    if (line.empty()) continue;
    std::istringstream in(line); in>>op; auto n=[&](){ return mo::num(in); };
    if (op=="Reset"){ own.reset(); emit::Event("Reset"); continue; }
    if (op!="Make" && !own) BAD_SCRIPT("nothing made");
    emit::Event e(op);
    try {
      if (op=="Make"){ std::string kind; int t=n(); in>>kind; cv=t==2; cc=t>=1; own= t==0?build<double,double>(kind,in):t==1?build<double,C>(kind,in):build<C,C>(kind,in);
        std::vector<std::vector<size_t>> k; for (auto q: own->keys()) k.push_back({q/n_,q%n_}); e.f("kind",kind).f("n",n_).raw("cells",cells_).f("keys",k); }
      else if (op=="Fill"){ bool vec=n(); lcg_=n(); int B=n(), kind=n(); Info I; I.cplx=vec?cc:cv; I.e={n(),n(),n()}; I.f=n(); I.dims=n(); auto d=make(n_,B,I,kind); own->fill(vec,d,I); e.f("vec",vec?1:0).f("cplx",I.cplx).f("e",I.e).f("data",d); }
      else if (op=="Cost"){ bool vec=n(); int f=n(); std::array<int,3> w{n(),n(),n()}; own->cost(vec,f,{1.*w[0],1.*w[1],1.*w[2]}); e.f("vec",vec?1:0).f("f",f).f("w",w); }
      else if (op=="Sort"||op=="Look"){ int thr=op=="Sort"?n():0; if (op=="Sort"){ omp_set_num_threads(thr); own->sort(); } std::string o="["; bool first=true; std::set<std::pair<ind_t,ind_t>> pr; for (auto q: own->keys()) pr.insert({q/n_,q%n_}); for (int q=0;q<6;++q) pr.insert({rnd(0,n_-1),rnd(0,n_-1)}); pr.insert({n_-1,n_-1});
        for (auto& q: pr){ auto p=own->get(q.first,q.second); o+=(first?"":",")+std::string("[[")+std::to_string(q.first)+","+std::to_string(q.second)+"],"+emit::val(p)+"]"; first=false; }
        std::vector<std::vector<size_t>> k; for (auto q: own->keys()) k.push_back({q/n_,q%n_}); e.f("thr",thr).raw("perms",o+"]").f("keys",k); }
      else if (op=="At"){ int k=n(); std::vector<std::pair<ind_t,double>> iw; std::vector<std::array<int,2>> w; int left=8; std::set<int> used; lcg_=n(); std::vector<std::pair<ind_t,ind_t>> ks; for (auto q: own->keys()) if (q) ks.push_back({q/n_,q%n_});
        // a point and some of its neighbours
        int i=ks.empty()?0:(int)ks[rnd(0,(int)ks.size()-1)].first; used.insert(i); std::vector<int> idx{i}; for (int q=0;q<4*k && (int)idx.size()<k && !ks.empty();++q){ auto& c=ks[rnd(0,(int)ks.size()-1)]; if ((int)c.first==i && used.insert(c.second).second) idx.push_back(c.second); }
        for (size_t q=0;q<idx.size();++q){ int x= q+1==idx.size()?left:rnd(1,std::max(1,left-(int)(idx.size()-q-1))); left-=x; w.push_back({idx[q],x}); iw.push_back({(ind_t)idx[q],x/8.}); }
        e.f("iw",w); own->at(iw,e); }
      else BAD_SCRIPT("op "+op);
      e.f("threw",false);
    } catch (const std::exception& x){ e.f("threw",true).f("why",std::string(x.what()).substr(0,200)); }
  }
}
