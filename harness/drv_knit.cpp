// Fills per-worker vertex registries and merges them, serially and in parallel.
#include <omp.h>
#include "array_.hpp"
#include "vertex_map_set.h"
#include "vertex_index_map.h"
#include "vertex_map_knit.h"
#include "emit.hpp"
using namespace brille;
using Set = VertexMapSet<double, bArray>;
using Pair = std::pair<Set, VertexIndexMap>;
static double tol = 1e-10;
static std::array<double,3> pos(int v){ return {0.25*(v%5) - 0.5, 0.25*((v/5)%5) - 0.25, 0.5*(v/25)}; }
static int ident(const bArray<double>& a, ind_t i){
  for (int v=0; v<125; ++v){ auto p=pos(v); if (std::fabs(a.val(i,0)-p[0])<1e-6 && std::fabs(a.val(i,1)-p[1])<1e-6 && std::fabs(a.val(i,2)-p[2])<1e-6) return v; }
  return -1;
}
static bArray<double> point(int v, double jitter){ auto p=pos(v); std::vector<std::array<double,3>> x{{p[0]+jitter,p[1]-jitter,p[2]+jitter}}; return bArray<double>::from_std(x); }
static std::string show(const Pair& p, std::vector<int>& verts){
  verts.clear();
  if (p.first.preserved_count() + p.first.appended_count() == 0) return "[]";   // a worker which had nothing to do
  auto v = p.first.consolidate().pristine();
  for (ind_t i=0;i<v.size(0);++i) verts.push_back(ident(v,i));
  std::string m="["; bool first=true;
  for (auto it=p.second.cbegin(); it!=p.second.cend(); ++it){
    auto d = p.second.decode(p.first.preserved_count(), it->first);
    std::vector<int> idx(d.begin(), d.end());
    m += std::string(first?"":",")+"{\"n\":"+std::to_string(it->first)+",\"idx\":"+emit::val(idx)+"}"; first=false; }
  return m+"]";
}
int main(){
  std::string op; std::vector<Pair> pairs; std::string serial, parallel; std::vector<int> sv, pv; bool one=false;
  while (std::cin >> op){
    if (op=="Reset"){ emit::Event("Reset"); continue; }
    if (op=="Begin"){ int np, w, threads; std::cin >> np >> w >> threads; omp_set_num_threads(threads);
      std::vector<std::array<double,3>> x; for(int i=0;i<np;++i) x.push_back(pos(i));
      auto pr = bArray<double>::from_std(x); pairs.clear();
      for(int i=0;i<w;++i) pairs.push_back(std::make_pair(Set(pr, tol, 1000), VertexIndexMap()));
      emit::Event("Begin").f("np",np).f("workers",w); continue; }
    if (op=="Add"){ int w,n,v,how; double jit; std::cin >> w >> n >> v >> how >> jit;
      auto& p = pairs[w-1]; Set::rel_t r;
      if (how==3) r = p.first.preserve((ind_t)v);
      else r = p.first.add(point(v, jit*1e-12), how==0 ? AddVertexType::Unknown : how==1 ? AddVertexType::Pristine : AddVertexType::Crafted);
      if (n>=0) p.second.append((ind_t)n, r);
      emit::Event("Add").f("w",w).f("n",n).f("v",v).f("kind", r.first==MapVertexType::Pristine?"P":r.first==MapVertexType::Appended?"A":"?").f("idx",r.second)
        .f("kept",p.first.preserved_count()).f("extra",p.first.appended_count());
      continue; }
    if (op=="Merge"){
      std::vector<int> before, after; std::string b, a;
      for (auto& p: pairs){ std::vector<int> t; b += show(p,t)+emit::val(t); }
      { bool ok=true; std::string m="[]"; try { auto r = vertex_maps::reduce(pairs); m = show(r, sv); } catch (const std::exception& ex){ ok=false; sv.clear(); }
        serial=m; emit::Event("Reduce").f("ok",ok).f("vertices",sv).raw("map",m); }
      { bool ok=true; std::string m="[]"; try { auto r = vertex_maps::parallel_reduce(pairs); m = show(r, pv); } catch (const std::exception& ex){ ok=false; pv.clear(); }
        parallel=m; emit::Event("ParallelReduce").f("ok",ok).f("vertices",pv).raw("map",m); }
      for (auto& p: pairs){ std::vector<int> t; a += show(p,t)+emit::val(t); }
      emit::Event("Same").f("same", serial==parallel && sv==pv).f("inputs_unchanged", a==b);
      continue; }
    BAD_SCRIPT("unknown op "<<op);
  }
}
