ARR = ["hdf_interface", "approx_config", "debug", "process_id", "comparisons", "bravais"]
BUGS = [
dict(id="p12-lock-forgets-claim", property="P12",
 needs="locking or unlocking a status that is claimed at that moment",
 what="changing the lock of a sorting status clears its claimed flag",
 edits=[("src/sorting_status.hpp", "status_t rem = this->status & (s_mask + q_mask + c_mask + v_mask);",
         "status_t rem = this->status & (s_mask + q_mask + v_mask);")],
 demo=r'''
#include <stdexcept>
#include <string>
#include "sorting_status.hpp"
#include <cstdio>
int main(){
  brille::SortingStatus s;
  s.claimed(true); s.visits(3u);
  s.locked(true);
  if (!s.claimed() || !s.locked() || s.visits() != 3u){ std::puts("claim lost by locking"); return 1; }
  s.locked(false);
  return s.claimed() ? 0 : 1;
}
'''),
dict(id="p11-known-permutation-misfiled", property="P11",
 needs="storing, for a new pair, a permutation that is already known and is not the most recently added one",
 what="the pair is linked to the newest stored permutation instead of the equal one that was found",
 edits=[("src/permutation_table.hpp", "ijmap.emplace(key, idx+offset); // +offset for -offset in get",
         "ijmap.emplace(key, permutations.size()-1+offset); // +offset for -offset in get")],
 stub=True, libs=ARR, flags="-fopenmp",
 demo=r'''
#include "array2.hpp"
#include "hdf_interface.hpp"
#include <numeric>
#include "permutation_table.hpp"
#include <cstdio>
int main(){
  using V = std::vector<brille::ind_t>;
  brille::PermutationTable t(6, 3);
  t.set(1, 2, V{1, 0, 2});
  t.set(1, 3, V{2, 0, 1});
  t.set(2, 3, V{1, 0, 2});
  t.set(4, 5, V{0, 1, 2});
  if (t.safe_get(2, 3) != V{1, 0, 2}) { std::puts("(2,3) lost"); return 1; }
  if (t.safe_get(4, 5) != V{0, 1, 2}) { std::puts("(4,5) lost"); return 1; }
  return 0;
}
'''),
dict(id="p09-stale-primes", property="P09",
 needs="a cost matrix for which the search is augmented more than once and a stale prime lies on a later path",
 what="primes survive an augmentation, later alternating paths run through them and the matching is not optimal or not a permutation",
 edits=[("src/munkres.hpp", "for (size_t i=0; i<N*N; ++i) if (marker::PRIMED==mask[i]) mask[i]=marker::NORMAL;",
         "for (size_t i=0; i<N; ++i) if (marker::PRIMED==mask[i*N+stored_col]) mask[i*N+stored_col]=marker::NORMAL;")],
 demo=r'''
#include <cmath>
#include <cstdio>
#include <string>
#include <algorithm>
#include <numeric>
#include "munkres.hpp"
int main(){
  unsigned s = 12345;
  auto rnd = [&]{ s = s*1664525u + 1013904223u; return (s >> 16) % 10; };
  for (int n = 3; n < 7; ++n) for (int t = 0; t < 400; ++t){
    std::vector<double> c(n*n); for (auto& x: c) x = rnd(); c[0] += 1;
    brille::assignment::Munkres<double> m(n, c);
    std::vector<size_t> a(n, n);
    if (!m.get_assignment(a.data())) { std::puts("declined"); return 1; }
    std::vector<bool> used(n, false); double cost = 0;
    for (int i=0; i<n; ++i){ if (a[i] >= (size_t)n || used[a[i]]) { std::puts("not a permutation"); return 1; } used[a[i]] = true; cost += c[i*n+a[i]]; }
    std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); double best = 1e9;
    do { double x = 0; for (int i=0; i<n; ++i) x += c[i*n+p[i]]; best = std::min(best, x); } while (std::next_permutation(p.begin(), p.end()));
    if (cost != best) { std::printf("cost %g, best %g\n", cost, best); return 1; }
  }
  return 0;
}
'''),
dict(id="p10-consolidate-by-index", property="P10",
 needs="pristine vertices registered in an order other than their index order, then consolidated",
 what="consolidation lists the kept vertices by their old index while the nodes refer to the order of registration",
 edits=[("src/vertex_map_set.h", "return a.second < b.second;", "return a.first < b.first;")],
 stub=True, libs=ARR + ["vertex_map_set"], flags="-fopenmp",
 demo=r'''
#include "array_.hpp"
#include "vertex_map_set.h"
#include <cstdio>
int main(){
  using namespace brille;
  std::vector<std::array<double,3>> pts{{0,0,0},{1,0,0},{0,1,0},{0,0,1}};
  auto a = bArray<double>::from_std(pts);
  VertexMapSet<double, bArray> s(a, 1e-9, 1);
  auto x = s.preserve(3), y = s.preserve(1);
  auto c = s.consolidate().pristine();
  if (c.val(x.second, 2) != 1.0 || c.val(y.second, 0) != 1.0) { std::puts("a node's vertex moved"); return 1; }
  return 0;
}
'''),
dict(id="p14-strided-lin2sub", property="P14",
 needs="the linear position of an element in a row ordered array whose smallest stride is larger than one",
 what="the subscripts are found in the wrong order and are not the inverse of the linear position",
 edits=[("src/subscript.hpp", "  if (stride[1] > stride[0]){\n", "  if (stride[1] > I(1)){\n")],
 demo=r'''
#include <stdexcept>
#include <string>
#include "subscript.hpp"
#include <cstdio>
int main(){
  using brille::lin2sub; using brille::sub2lin;
  std::vector<std::array<unsigned,2>> strides{{3,1},{1,4},{6,2},{2,8},{9,3}};
  std::vector<std::array<unsigned,2>> shapes{{4,3},{4,3},{4,3},{4,3},{2,3}};
  for (size_t k=0; k<strides.size(); ++k) for (unsigned i=0; i<shapes[k][0]; ++i) for (unsigned j=0; j<shapes[k][1]; ++j){
    std::array<unsigned,2> s{i,j};
    auto b = lin2sub(sub2lin(s, strides[k]), strides[k]);
    if (b != s){ std::printf("stride (%u,%u): (%u,%u) -> (%u,%u)\n", strides[k][0], strides[k][1], i, j, b[0], b[1]); return 1; }
  }
  return 0;
}
'''),
dict(id="p25-last-difference-wins", property="P25",
 needs="arrays of different number types compared with the tolerance of the second type, whose last elements agree while an earlier one differs",
 what="tolerant equality of arrays only looks at the last element",
 edits=[("src/approx_float.hpp", "answer &= x <= Rabs + Rrel*brille::abs(a[i]+b[i]) || x < Rmin;",
         "answer = x <= Rabs + Rrel*brille::abs(a[i]+b[i]) || x < Rmin;")],
 stub=True, libs=["approx_config"], 
 demo=r'''
#include "approx_float.hpp"
#include <cstdio>
int main(){
  double d[3]{1, 2, 3}; int i[3]{1, 5, 3}; float f[3]{1, 5, 3};
  if (brille::approx_float::vector(3, i, d)) { std::puts("int/double"); return 1; }
  if (brille::approx_float::vector(3, d, i)) { std::puts("double/int"); return 1; }
  if (brille::approx_float::vector(3, d, f)) { std::puts("double/float"); return 1; }
  if (brille::approx_float::vector(3, f, d)) { std::puts("float/double"); return 1; }
  int j[3]{1, 2, 3};
  return brille::approx_float::vector(3, j, d) ? 0 : 1;
}
'''),
dict(id="p29-third-error-replaces", property="P29",
 needs="three or more workers raising errors in one parallel loop",
 what="the third error raised replaces the collected text of the first two",
 edits=[("src/thread_exception.h", "    if (count_++) {", "    if (count_++ == 1) {")],
 demo=r'''
#include <stdexcept>
#include <string>
#include "thread_exception.h"
#include <cstdio>
int main(){
  ThreadException e;
  for (int i=0; i<4; ++i) e.run([i]{ throw std::runtime_error("worker " + std::to_string(i)); });
  try { e.rethrow(); } catch (const std::exception& x){
    std::string t = x.what();
    for (int i=0; i<4; ++i) if (t.find("worker " + std::to_string(i)) == std::string::npos){ std::printf("worker %d is missing from: %s\n", i, t.c_str()); return 1; }
    return 0;
  }
  return 1;
}
'''),
dict(id="p27-adjoint-sign", property="P27",
 needs="an adjugate or inverse of a matrix of four or more rows",
 what="the sign of cofactors follows i+j modulo three for large matrices, so adjugate and inverse are wrong",
 edits=[("src/utilities.tpp", "pm = ( (i+j)%2==0 ) ? R(1) : R(-1);", "pm = ( i==j || (i+j)==2 || (i+j)==4 ) ? R(1) : R(-1);")],
 stub=True, libs=["debug", "process_id"],
 demo=r'''
#include "utilities.hpp"
#include <cstdio>
int main(){
  int n = 5; long M[25]; unsigned s = 7;
  for (n = 2; n < 6; ++n) for (int t=0; t<20; ++t){
    for (int i=0; i<n*n; ++i) { s = s*1664525u + 1013904223u; M[i] = (long)((s>>16)%7) - 3; }
    long A[25]; brille::utils::matrix_adjoint(A, M, n);
    long d = brille::utils::matrix_determinant(M, n);
    for (int i=0; i<n; ++i) for (int j=0; j<n; ++j){ long x=0; for (int k=0; k<n; ++k) x += M[i*n+k]*A[k*n+j];
      if (x != (i==j ? d : 0)) { std::printf("M adj(M) is not det(M) for n=%d\n", n); return 1; } }
  }
  return 0;
}
'''),
]
