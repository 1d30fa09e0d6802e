// Edits and questions lists of point operations (PointSymmetry) and motions (Symmetry).
#include "motions.hpp"
#include "bravais.hpp"
using namespace brille; using namespace mo;
static std::istringstream in;
static int n(){ return num(in); }
static std::string cif(const M9& W, const std::array<double,3>& w){ return Mot(W,w).to_ascii(); }
template<class F> bool attempt(F f){ try { f(); return false; } catch (const std::exception&) { return true; } }
int main(){
  std::string line, op; PointSymmetry p; Symmetry s;
  while (std::getline(std::cin, line)){
    if (line.empty()) continue;
    in=std::istringstream(line); in>>op;
    if (op=="Reset"){ p=PointSymmetry(); s=Symmetry(); emit::Event("Reset"); continue; }
    emit::Event e(op); bool err=false;
    if (op[0]=='P'){
      if (op=="PMake"){ int k=n(); std::vector<M9> ms; while (k--) ms.push_back(mat(in)); e.raw("ms",mats(ms)); p=PointSymmetry(ms); }
      else if (op=="PAdd"){ int how=n(), k=n(); std::vector<M9> ms; while (k--) ms.push_back(mat(in)); e.raw("ms",mats(ms)); size_t sz=p.size();
        if (how==2){ std::string t; for (size_t i=0;i<ms.size();++i) t+=(i?";":"")+cif(ms[i],{{0,0,0}}); if (!ms.empty()) sz=p.add(t); }
        else for (auto& m: ms) sz = how==1 ? p.add(m.data()) : p.add(m);
        e.f("size",sz); }
      else if (op=="PSet"){ int i=n(); M9 m=mat(in); e.f("i",i).raw("m",m9(m)); e.f("ret",p.set(i,m.data())); }
      else if (op=="PErase"){ int i=n(); e.f("i",i); err=attempt([&]{p.erase(i);}); }
      else if (op=="PPop"){ int i=n(); e.f("i",i); M9 m{}; err=attempt([&]{m=p.pop(i);}); e.raw("m",m9(m)); }
      else if (op=="PResize"){ int i=n(); e.f("n",i); p.resize(i); }
      else if (op=="PSort"){ int m=n(); e.f("mode",m); p.sort(m); }
      else if (op=="PPermute"){ int k=n(); std::vector<size_t> q; while(k--) q.push_back(n()); e.f("p",q); err=attempt([&]{p.permute(q);}); }
      else if (op=="PAsk"){ int i=n(); M9 m=mat(in); V3 v=vec(in), w=vec(in); e.f("i",i).raw("m",m9(m)).f("v",v).f("w",w);
        std::vector<int> i1,o1,inv; std::vector<V3> a1; std::vector<M9> invm;
        for (size_t k=0;k<p.size();++k){ i1.push_back(p.isometry(k)); o1.push_back(p.order(k)); a1.push_back(p.axis(k));
          int x=-1; M9 y{}; attempt([&]{ x=(int)p.get_inverse_index(k); }); attempt([&]{ y=p.get_inverse(k); }); inv.push_back(x); invm.push_back(y); }
        M9 g{}; bool gets=p.get(i,g.data());
        const PointSymmetry& c=p; if (gets && (!c.data(i) || !std::equal(g.begin(),g.end(),c.data(i)))) gets=false;
        e.f("size",p.size()).f("isos",p.isometries()).f("isos1",i1).f("orders",p.orders()).f("orders1",o1).f("axes",p.axes()).f("axes1",a1).f("inverse",inv).raw("inversem",mats(invm));
        e.f("find",p.find_index(m)).f("ident",p.find_identity_index()).f("has",p.has(m)).f("inversion",p.has_space_inversion()).raw("get",m9(p.get(i))).f("gets",gets).raw("proper",m9(p.get_proper(i)));
        bool a=attempt([&]{p.order(i);}), b=attempt([&]{p.isometry(i);}), d=attempt([&]{p.axis(i);}); e.f("oerr",a&&b&&d);
        e.f("mv",p.mat_vec_links(v,w)).f("vm",p.vec_mat_links(v,w)).raw("mvops",mats(p.mat_vec_linking_operations(v,w))).raw("vmops",mats(p.vec_mat_linking_operations(v,w))); }
      else if (op=="PGenerate"||op=="PGenerators"||op=="PAddInv"){ int take=n(); e.f("take",take!=0); PointSymmetry r;
        err=attempt([&]{ r = op=="PGenerate" ? p.generate() : op=="PGenerators" ? p.generators() : p.add_space_inversion(); });
        e.raw("res",mats(r.getall())); if (take) p=r; }
      else if (op=="PHigher"||op=="PNfolds"){ int k=n(); e.f("n",k); PointSymmetry r = op=="PHigher" ? p.higher(k) : p.nfolds(k); e.raw("res",mats(r.getall())).f("axes",p.axes()); }
      else BAD_SCRIPT(op);
    } else {
      if (op=="SMake"||op=="SEqual"){ int k=n(); std::vector<Mot> ms; while (k--) ms.push_back(motion(in)); e.raw("ms",mots(ms)); Symmetry t(ms); if (op=="SMake") s=t; else e.f("equal",s==t).f("differ",s!=t); }
      else if (op=="SAdd"){ int how=n(), k=n(); std::vector<Mot> ms; while (k--) ms.push_back(motion(in)); e.raw("ms",mots(ms)); size_t sz=s.size();
        for (auto& m: ms){ auto W=m.getr(); auto w=m.gett(); sz = how==0 ? s.add(m) : how==1 ? s.add(W.data(),w.data()) : how==2 ? s.add(W,w) : s.add(cif(W,w)); }
        e.f("size",sz); }
      else if (op=="SErase"){ int i=n(); e.f("i",i); err=attempt([&]{s.erase(i);}); }
      else if (op=="SPop"){ int i=n(); e.f("i",i); Mot m({0,0,0,0,0,0,0,0,0},{0,0,0}); err=attempt([&]{m=s.pop(i);}); e.raw("m",mot(m)); }
      else if (op=="SAsk"){ int i=n(); Mot m=motion(in); e.f("i",i).raw("m",mot(m)); std::vector<int> o1; for (size_t k=0;k<s.size();++k) o1.push_back(s.order(k));
        std::string at="["; auto allt=s.getallt(); for (size_t k=0;k<allt.size();++k) at+=(k?",":"")+t3(allt[k]);
        std::string cen=bravais_string(s.getcentring()); 
        e.f("size",s.size()).f("orders",s.orders()).f("orders1",o1).raw("get",mot(s.getm(i))).raw("getr",m9(s.getr(i))).raw("gett",t3(s.gett(i))).f("has",s.has(m)).f("inversion",s.has_space_inversion())
         .f("matrix",s.find_matrix_index(m.getr())).f("centring",std::string(1,bravais_letter(s.getcentring()))).raw("allr",mats(s.getallr())).raw("allt",at+"]").f("oerr",attempt([&]{s.order(i);})); }
      else if (op=="SGenerate"||op=="SGenerators"||op=="SAddInv"){ int take=n(); e.f("take",take!=0); Symmetry r;
        err=attempt([&]{ r = op=="SGenerate" ? s.generate() : op=="SGenerators" ? s.generators() : s.add_space_inversion(); });
        e.raw("res",mots(r.getallm())); if (take) s=r; }
      else BAD_SCRIPT(op);
    }
    e.f("error",err).raw("pt",mats(p.getall())).raw("sp",mots(s.getallm()));
  }
}
