// Direct and reciprocal lattices built in every way from integer metric tensors; vectors, and primitive descriptions of them.
#include <functional>
#include "gram.hpp"
#include "spg_database.hpp"
#include "transform.hpp"
using namespace brille; using namespace brille::lattice; using namespace gr;
typedef Lattice<double> Lat; typedef LVec<double> LV;
struct Held { Lat lat; G6 g; double det; bool recip; double scale; int hall; };
static std::map<int,Held> held;
static LengthUnit L(int r){ return r?LengthUnit::inverse_angstrom:LengthUnit::angstrom; }

static double worst(const D9& a, const D9& b){ double w=0,s=1e-300; for (int i=0;i<9;++i){ w=std::max(w,std::fabs(a[i]-b[i])); s=std::max(s,std::fabs(b[i])); } return w/s; }
// symmetry: a tabulated setting, given as operations, as its Hall symbol, by name, or with its operations written out
static std::string symtext(const std::string& sym, const Spacegroup& s){
  if (sym=="hall") return s.hall_symbol;
  std::string t; const Symmetry all=s.get_spacegroup_symmetry(); for (auto& m: all.getallm()) t += (t.empty()?"":"; ")+m.to_ascii(); return t; }
static Lat make(const std::string& how, bool recip, const D9& c, const D3& l, const std::function<D3(AngleUnit)>& angles, int hall, const std::string& sym, bool snap){
  LengthUnit lu=L(recip); Spacegroup s(hall); std::string text=symtext(sym,s);
  if (how=="col"||how=="row"){ D9 m = how=="col"?c:tr(c); auto mv=how=="col"?MatrixVectors::column:MatrixVectors::row;
    if (sym=="ops") return Lat(lu,m,mv,s.get_spacegroup_symmetry(),Basis(),snap);
    if (sym=="name") return Lat(lu,m,mv,s.international_full,s.choice,Basis(),snap);
    return Lat(lu,m,mv,text,Basis(),snap); }
  bool none=how.substr(0,4)=="none"; auto au=unit(none?how.substr(4):how); D3 a=angles(au); if (none) au=AngleUnit::not_provided;
  if (sym=="ops") return Lat(lu,l,a,s.get_spacegroup_symmetry(),Basis(),snap,au);
  if (sym=="name") return Lat(lu,l,a,s.international_full,s.choice,Basis(),snap,au);
  return Lat(lu,l,a,text,Basis(),snap,au); }
static double F(const Held& h, int r){ double s2=h.scale*h.scale; return (r!=0)==h.recip ? 1/s2 : h.det*s2/(TP*TP); }
static void describe(emit::Event& e, const Held& h, const Lat& t){
  for (int r=0;r<2;++r){ auto lu=L(r); std::string n=r?"q":"r"; double f=F(h,r); auto m=t.metric(lu); auto l=t.lengths(lu);
    std::vector<long long> l2, cs; bool each=true; const AngleUnit us[3]={AngleUnit::radian,AngleUnit::degree,AngleUnit::pi}; const double k[3]={1,TP/360,TP/2};
    for (int i=0;i<3;++i){ l2.push_back(ri(l[i]*l[i]*f)); for (int u=0;u<3;++u){ auto a=t.angles(lu,us[u]); each=each&&a[i]==t.angle(lu,i,us[u]); auto c=ri(std::cos(a[i]*k[u])*l[(i+1)%3]*l[(i+2)%3]*f); cs.push_back(c); }
      auto v=t.vector(lu,i); auto vs=t.vectors(lu); for (int j=0;j<3;++j) each=each&&v[j]==vs[3*j+i]&&l[i]==t.length(lu,i); }
    each=each&&t.vectors(lu)==(r?t.reciprocal_basis_vectors():t.real_basis_vectors())&&t.to_xyz(lu)==t.vectors(lu);
    D9 id=mul(t.to_xyz(lu),t.from_xyz(lu));
    double v=t.volume(lu);
    e.raw(("metric"+n).c_str(),rv(m,f)).f(("len"+n).c_str(),l2).f(("cos"+n).c_str(),cs).f(("each"+n).c_str(),each).raw(("id"+n).c_str(),rv(id)).f(("vol"+n).c_str(),v>0?ri(v*v*f*f*f):-1); }
  e.f("volvol",ri(t.volume(L(0))*t.volume(L(1))/(TP*TP*TP))).raw("prod",rv(mul(tr(t.real_basis_vectors()),t.reciprocal_basis_vectors()),1/TP)).f("letter",std::string(1,bravais_letter(t.bravais()))).f("nops",(int)t.spacegroup_symmetry().size()).f("npoint",(int)t.pointgroup_symmetry().size());
}
static LV vecs(std::istream& in, const Lat& lat, int r, int n, double unit=1, bool viewed=false){
  bArray<double> a(n+(viewed?2:0),3u); if (viewed) for (int j=0;j<3;++j){ a.val(0,j)=77+j; a.val(n+1,j)=-55-j; }
  for (int i=0;i<n;++i) for (int j=0;j<3;++j) a.val(i+(viewed?1:0),j)=mo::num(in)/unit;
  LV v(L(r),lat,a); return viewed ? v.view(1,n+1) : v; }
static bool of(const LV& v, const Lat& lat, int r){ return v.lattice().is_same(lat) && v.type()==L(r); }
template<class T> static std::string ints(const LVec<T>& v, double s=1){ std::string o="["; for (ind_t i=0;i<v.size(0);++i){ o+=i?",":""; std::vector<long long> k; for (ind_t j=0;j<3;++j) k.push_back(ri((double)v.val(i,j),s)); o+=emit::val(k);} return o+"]"; }
static double gap(const bArray<double>& a, const bArray<double>& b){ double w=0; if (a.size(0)!=b.size(0)) return 1e9; for (ind_t i=0;i<a.size(0);++i) for (ind_t j=0;j<3;++j) w=std::max(w,std::fabs(a.val(i,j)-b.val(i,j))/(1+std::fabs(b.val(i,j)))); return w; }
template<class T> static void transform(emit::Event& e, const Held& h, int r, bool to, int par, int threads, const LVec<T>& x, double u){
  const Lat p=h.lat.primitive();
  auto y = to ? (par?parallel_transform_to_primitive(h.lat,x,threads):transform_to_primitive(h.lat,x)) : (par?parallel_transform_from_primitive(h.lat,x,threads):transform_from_primitive(h.lat,x));
  auto z = to ? (par?parallel_transform_from_primitive(h.lat,y,threads):transform_from_primitive(h.lat,y)) : (par?parallel_transform_to_primitive(h.lat,y,threads):transform_to_primitive(h.lat,y));
  auto twice = to ? transform_to_primitive(h.lat,y) : transform_from_primitive(h.lat,y);
  e.raw("y",ints(y,u*6)).raw("z",ints(z,u)).raw("twice",ints(twice,u*6)).f("there",y.type()==L(r)&&y.lattice().is_same(to?p:h.lat)).f("back",z.type()==L(r)&&z.lattice().is_same(to?h.lat:p)).f("place",gap(x.xyz(),y.xyz())<1e-9);
}
int main(){
  std::string line, op;
  while (std::getline(std::cin, line)){
    if (line.empty()) continue;
    std::istringstream in(line); in>>op; auto n=[&](){ return mo::num(in); };
    if (op=="Reset"){ held.clear(); emit::Event("Reset"); continue; }
    emit::Event e(op);
    if (op=="Lat"){ int id=n(); std::string how, sym; in>>how>>sym; int recip=n(), snap=n(), hall=n(); int sn=n(), sd=n(); G6 g=g6(in); std::array<int,4> q; for (auto& x: q) x=n();
      double sc=double(sn)/sd; D9 c=columns(g,q); for (auto& x: c) x*=sc; D3 l=lens(g); for (auto& x: l) x*=sc;
      e.f("id",id).f("how",how).f("sym",sym).f("recip",recip).f("snap",snap).f("i",hall).f("scale",std::array<int,2>{sn,sd}).f("g",D9{(double)g[0],(double)g[5],(double)g[4],(double)g[5],(double)g[1],(double)g[3],(double)g[4],(double)g[3],(double)g[2]}).f("turn",q);
      Lat t=make(how,recip,c,l,[&](AngleUnit u){ return angs(g,u); },hall,sym,snap);
      Held h{t,g,detg(g),(bool)recip,sc,hall}; describe(e,h,t);
      e.f("kept",(how!="col"&&how!="row")||worst(t.vectors(L(recip)),c)<1e-9); held[id]=h; }
    else if (op=="Again"){ int id=n(); std::string how, sym; in>>how>>sym; int recip=n(), snap=n(); auto& h=held.at(id); auto lu=L(recip);
      Lat t=make(how,recip,h.lat.vectors(lu),h.lat.lengths(lu),[&](AngleUnit u){ return h.lat.angles(lu,u); },h.hall,sym,snap);
      e.f("id",id).f("how",how); describe(e,h,t); e.f("near",worst(t.vectors(L(0)),h.lat.vectors(L(0)))<1e-9&&worst(t.vectors(L(1)),h.lat.vectors(L(1)))<1e-9).f("is",t.is_same(h.lat)).f("eq",h.lat==t).f("ne",t!=h.lat); }
    else if (op=="Same"){ int i=n(), j=n(); auto &a=held.at(i).lat, &b=held.at(j).lat; e.f("a",i).f("b",j).f("is",a.is_same(b)).f("eq",a==b).f("ne",a!=b).f("sym",b.is_same(a)); }
    else if (op=="Vec"){ int id=n(), r=n(), many=n(), mode=n(); auto& h=held.at(id); int na=mode==1?1:many, nb=mode==2?1:many; bool viewed=mode==3;
      auto x=vecs(in,h.lat,r,na,1,viewed), y=vecs(in,h.lat,r,nb,1); LV w(L(!r),h.lat,bArray<double>(y.hkl()).decouple());
      double f=F(h,r), V=h.lat.volume(L(r)); bool ok=true;
      auto d=dot(x,y); auto c=cross(x,y); auto s=x.star(); auto fs=star(x); ok=ok&&of(c,h.lat,r)&&of(s,h.lat,!r)&&of(fs,h.lat,!r);
      auto all=cat(0,x,y); auto m=all.cross(0,all.size(0)-1); auto nn=norm(x); std::vector<long long> n2; for (ind_t i=0;i<nn.size(0);++i) n2.push_back(ri(nn.val(i,0)*nn.val(i,0)*f));
      auto xx=x.xyz(), yy=y.xyz(); auto back=from_xyz_like(x,xx); auto back2=from_xyz_like(L(r),h.lat,xx); auto b3=xyz_to_hkl(h.lat,L(r),xx); auto x3=hkl_to_xyz(h.lat,L(r),bArray<double>(x.hkl()));
      e.f("id",id).f("r",r).raw("x",ints(x)).raw("y",ints(y)).raw("dot",rcol(d,f)).raw("cross",ints(c,V*f*f)).raw("mcross",ints(m,V*f*f)).f("mdot",ri(all.dot(0,all.size(0)-1),f)).f("mnorm",ri(x.norm(0)*x.norm(0)*f)).f("norm2",n2)
       .raw("star",ints(s,TP*f)).raw("fstar",ints(fs,TP*f)).raw("mixed",rcol(dot(x,w),1/TP)).raw("mixed2",rcol(dot(w,x),1/TP)).raw("xdot",rcol(dot(xx,yy),f)).raw("xmixed",rcol(dot(xx,w.xyz()),1/TP))
       .raw("back",ints(back)).raw("back2",ints(back2)).raw("back3",rarr(b3)).f("place",gap(xx,x3)<1e-12).raw("starback",ints(s.star())).f("starplace",gap(s.xyz(),xx)<1e-9);
      if (na==nb){ auto p=x+y, q=x-y; ok=ok&&of(p,h.lat,r)&&of(q,h.lat,r); e.raw("plus",ints(p)).raw("minus",ints(q)); } else e.raw("plus","[]").raw("minus","[]");
      auto t=x*3., t2=2.*x, u=-x; ok=ok&&of(t,h.lat,r)&&of(t2,h.lat,r)&&of(u,h.lat,r)&&of(back,h.lat,r)&&of(back2,h.lat,r)&&of(all,h.lat,r);
      e.raw("times",ints(t)).raw("twice",ints(t2)).raw("neg",ints(u)).raw("all",ints(all)).f("of",ok); }
    else if (op=="Mixed"){ int i=n(), j=n(), r=n(), k=n(); bArray<double> a(1u,3u,1.); LV x(L(r),held.at(i).lat,a), y(L(k),held.at(j).lat,a); bool err=false;
      try { dot(x,y); } catch (const std::exception&) { err=true; } e.f("a",i).f("b",j).f("same",x.same_lattice(y)).f("star",x.star_lattice(y)).f("r",r).f("k",k).f("error",err); }
    else if (op=="Turn"){ int id=n(), r=n(); auto& h=held.at(id); D9 W; auto Wi=mo::mat(in); for (int i=0;i<9;++i) W[i]=Wi[i]; auto x=vecs(in,h.lat,r,2); auto y=W*x; e.f("W",Wi).raw("x",ints(x)).raw("y",ints(y)).f("of",of(y,h.lat,r)); }
    else if (op=="Prim"){ int id=n(); auto& h=held.at(id); PrimitiveTransform t(h.lat.bravais()); auto p=h.lat.primitive(); auto pp=p.primitive();
      auto i6=t.get_6P(), i6t=t.get_6Pt(), ip=t.get_invP(), ipt=t.get_invPt();
      e.f("id",id).f("letter",std::string(1,bravais_letter(h.lat.bravais()))).f("p6",i6).f("p6t",i6t).f("ip",ip).f("ipt",ipt).f("does",t.does_anything()).f("doesnt",t.does_nothing()).f("pletter",std::string(1,bravais_letter(p.bravais())))
       .raw("metricr",rv(p.metric(L(0)),36*F(h,0))).raw("metricq",rv(p.metric(L(1)),F(h,1))).f("ratio",ri(h.lat.volume(L(0))/p.volume(L(0)))).f("qratio",ri(p.volume(L(1))/h.lat.volume(L(1)))).raw("prod",rv(mul(tr(p.real_basis_vectors()),p.reciprocal_basis_vectors()),1/TP))
       .f("vectors",worst(p.real_basis_vectors(),[&]{ D9 d; for (int i=0;i<9;++i) d[i]=i6[i]/6.; return mul(h.lat.real_basis_vectors(),d); }())<1e-12).f("again",pp.is_same(p)).f("is",p.is_same(h.lat)).f("nops",(int)p.spacegroup_symmetry().size()); }
    else if (op=="Trans"){ int id=n(), r=n(); std::string T; in>>T; int to=n(), par=n(), threads=n(), viewed=n(), many=n(); auto& h=held.at(id); Lat from=to?h.lat:h.lat.primitive(); double u = T=="int"?1:12;
      auto keep=in.tellg(); (void)keep; auto x=vecs(in,from,r,many,u,viewed);
      e.f("id",id).f("r",r).f("type",T).f("to",to).raw("x",ints(x,u)).f("u",(int)u);
      if (T=="int"){ LVec<int> k(x.round()); transform(e,h,r,to,par,threads,k,u); } else transform(e,h,r,to,par,threads,x,u); }
    else if (op=="Wrong"){ int i=n(), j=n(), r=n(), to=n(), par=n(); auto &a=held.at(i), &b=held.at(j); bool err=false; LV x(L(r),b.lat,bArray<double>(1u,3u,1.));
      try { if (to) par?parallel_transform_to_primitive(a.lat,x,2):transform_to_primitive(a.lat,x); else par?parallel_transform_from_primitive(a.lat,x,2):transform_from_primitive(a.lat,x); } catch (const std::exception&) { err=true; }
      e.f("a",i).f("b",j).f("to",to).f("error",err); }
    else BAD_SCRIPT(op);
  }
}
