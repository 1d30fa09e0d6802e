// Runs the assignment solvers and permutation helpers on integer cost matrices.
// script:  <solver> n  c11 c12 ... u1.. un v1 .. vn    (the dual prices are passed through to the event)
#include <cassert>
#include <cstring>
#include <tuple>
#include <memory>
#include <algorithm>
#include <numeric>
#include "permutation.hpp"
#include "emit.hpp"
using namespace brille;
typedef std::vector<long long> V;
static std::string mat(const V& c, int n){ std::string o="["; for(int i=0;i<n;++i){ o += (i?",":"")+emit::val(V(c.begin()+i*n,c.begin()+(i+1)*n)); } return o+"]"; }
int main() {
  std::string op;
  while (std::cin >> op) {
    if (op == "Reset") { emit::Event("Reset"); continue; }
    int n; std::cin >> n;
    if (op == "Apply" || op == "ApplyInverse") {
      V obj(n), p(n); for (auto& x: obj) std::cin >> x; for (auto& x: p) std::cin >> x;
      std::vector<double> o(obj.begin(), obj.end()); std::vector<int> q(p.begin(), p.end());
      if (op == "Apply") apply_permutation(o.begin(), o.end(), q.begin()); else apply_inverse_permutation(o.begin(), o.end(), q.begin());
      V res; for (auto x: o) res.push_back((long long)std::nearbyint(x));
      emit::Event(op).f("n",n).f("obj",obj).f("perm",p).f("res",res).f("left",q);
      continue;
    }
    V c(n*n), u(n), v(n);
    for (auto& x: c) std::cin >> x; for (auto& x: u) std::cin >> x; for (auto& x: v) std::cin >> x;
    if (!std::cin) BAD_SCRIPT("short line");
    std::vector<double> cd(c.begin(), c.end());
    bool ok = true; V row(n,0), col; bool hascol=false, hastot=false; long long total=0;
    auto set = [&](auto& r){ row.assign(r.begin(), r.end()); };
    if (op == "munkres") { assignment::Munkres<double> m(n, cd); std::vector<size_t> out(n, 0); ok = m.get_assignment(out.data()); set(out); }
    else if (op == "munkresint") { std::vector<int> ci(c.begin(), c.end()); assignment::Munkres<int> m(n, ci); std::vector<size_t> out(n, 0); ok = m.get_assignment(out.data()); set(out); }
    else if (op == "munkresfill") { assignment::Munkres<double> m(n); auto& cm = m.get_cost(); for (int i=0;i<n*n;++i) cm[i]=cd[i]; m.run_assignment(); std::vector<size_t> out(n, 0); ok = m.get_assignment(out.data()); set(out); }
    else if (op == "munkrestwice") { // the same object used for a second problem after a first one (its transpose)
      std::vector<double> t(n*n); for(int i=0;i<n;++i) for(int j=0;j<n;++j) t[i*n+j]=cd[j*n+i];
      assignment::Munkres<double> m(n, t); std::vector<size_t> out(n, 0); m.get_assignment(out.data());
      auto& cm = m.get_cost(); for (int i=0;i<n*n;++i) cm[i]=cd[i]; m.run_assignment(); ok = m.get_assignment(out.data()); set(out); }
    else if (op == "lapjv") { std::vector<int> r(n,0), cc(n,0); std::vector<double> uu(n,0), vv(n,0);
      double t = assignment::lapjv(n, cd.data(), false, r.data(), cc.data(), uu.data(), vv.data()); set(r); col.assign(cc.begin(),cc.end()); hascol=true; total=(long long)std::nearbyint(t); hastot=true; }
    else if (op == "lapjvfloat") { std::vector<int> r(n,0), cc(n,0); std::vector<float> cf(c.begin(),c.end()), uu(n,0), vv(n,0);
      float t = assignment::lapjv(n, cf.data(), false, r.data(), cc.data(), uu.data(), vv.data()); set(r); col.assign(cc.begin(),cc.end()); hascol=true; total=(long long)std::nearbyint(t); hastot=true; }
    else if (op == "lapjvunsigned") { std::vector<unsigned> r(n,0), cc(n,0); std::vector<double> uu(n,0), vv(n,0);
      double t = assignment::lapjv((unsigned)n, cd.data(), false, r.data(), cc.data(), uu.data(), vv.data()); set(r); col.assign(cc.begin(),cc.end()); hascol=true; total=(long long)std::nearbyint(t); hastot=true; }
    else if (op == "jvperm") { auto r = jv_permutation(cd); set(r); }
    else if (op == "jvfill") { std::vector<int> r, cc; jv_permutation_fill(cd, r, cc); set(r); col.assign(cc.begin(),cc.end()); hascol=true; }
    else if (op == "jvfill1") { std::vector<ind_t> r; jv_permutation_fill(cd, r); set(r); }
    else if (op == "smp") { std::vector<int> r(n,-1), cc(n,-1); assignment::smp(n, cd.data(), r.data(), cc.data(), false); set(r); col.assign(cc.begin(),cc.end()); hascol=true; }
    else BAD_SCRIPT("unknown solver " << op);
    emit::Event e(op=="smp" ? "Stable" : "Optimal");
    e.f("n",n).raw("cost",mat(c,n)).f("row",row).f("ok",ok).f("solver",op);
    if (hascol) e.f("col",col); if (hastot) e.f("total",total);
    e.f("u",u).f("v",v);
  }
}
