// Replays operation sequences on brille::PermutationTable.
#include <numeric>
#include "array_.hpp"
#include "interpolatordual.hpp"
#include "permutation_table.hpp"
#include "emit.hpp"
using namespace brille;
typedef std::vector<unsigned> V;
static size_t N=2, B=1;
static V rdv(size_t n){ V v(n); for(auto& x: v) std::cin >> x; return v; }
static std::set<size_t> rdkeys(std::string& raw){ size_t n; std::cin >> n; std::set<size_t> k; raw="["; for(size_t a=0;a<n;++a){ size_t i,j; std::cin>>i>>j; k.insert(i*N+j); raw += (a?",[":"[")+std::to_string(i)+","+std::to_string(j)+"]"; } raw += "]"; return k; }
static void obs(emit::Event& e, const PermutationTable& t){
  std::string o="["; bool first=true;
  for(size_t i=0;i<N;++i) for(size_t j=0;j<N;++j){ auto g=t.safe_get(i,j); V gv(g.begin(),g.end());
    o += std::string(first?"":",")+"{\"i\":"+std::to_string(i)+",\"j\":"+std::to_string(j)+",\"has\":"+emit::val(t.has(i,j))+",\"needed\":"+emit::val(t.value_needed(i,j))+",\"get\":"+emit::val(gv)+"}"; first=false; }
  e.raw("obs", o+"]").f("keys", t.keys());
  PermutationTable c(t); e.f("copydiffers", t != c);
}
int main(){
  std::string op; PermutationTable t(2,1);
  while (std::cin >> op){
    if (op=="Reset"){ N=2;B=1; t = PermutationTable(2,1); emit::Event("Reset"); continue; }
    emit::Event e(op);
    if (op=="New"){ std::string raw; std::cin >> N >> B; auto k = rdkeys(raw); e.f("n",N).f("b",B).raw("pairs",raw); t = k.empty()? PermutationTable(N,B) : PermutationTable(N,B,k); }
    else if (op=="Set"){ size_t i,j; std::cin>>i>>j; auto v=rdv(B); auto r=t.set(i,j,v); e.f("i",i).f("j",j).f("v",v).f("idx",r); }
    else if (op=="Replace"){ size_t i,j,r=0; std::cin>>i>>j; auto v=rdv(B); bool err=false; try{ r=t.overwrite(i,j,v);}catch(const std::runtime_error&){err=true;} e.f("i",i).f("j",j).f("v",v).f("idx",r).f("error",err); }
    else if (op=="SetThenIndex"||op=="ReplaceIndex"){ size_t i,j,k,r=0; std::cin>>i>>j>>k; bool err=false; try{ r=t.overwrite(i,j,k);}catch(const std::runtime_error&){err=true;} e.f("i",i).f("j",j).f("idx",k).f("error",err); (void)r; }
    else if (op=="Reserve"){ std::string raw; auto k=rdkeys(raw); t.insert_keys(k); e.raw("pairs",raw); }
    else if (op=="Refresh"){ size_t n,b; std::cin>>n>>b; bool inv=t.refresh(n,b); N=n;B=b; e.f("n",n).f("b",b).f("inval",inv); }
    else if (op=="KeysFrom"){ size_t n,m; std::cin>>n>>m; V list=rdv(m); auto k=permutation_table_keys_from_indicies(list.begin(), list.end(), n); e.f("n",n).f("list",list).f("keys",k); continue; }
    else BAD_SCRIPT("unknown op "<<op);
    obs(e,t);
  }
}
