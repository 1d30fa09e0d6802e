ARR = ["hdf_interface", "approx_config", "debug", "process_id", "comparisons", "bravais"]
BUGS = [
dict(id="p13-decouple-one-copy", property="P13",
 needs="an N-dimensional array with exactly one other handle on its storage, decoupled and then written through",
 what="a decoupled array still shares its elements with the one copy that existed before",
 edits=[("src/array.hpp", "if (!_own || !_mutable || _ref.use_count() > 1) return this->_decouple();",
         "if (!_own || !_mutable || _ref.use_count() > 2) return this->_decouple();")],
 stub=True, libs=ARR, flags="-fopenmp",
 demo=r'''
#include "hdf_interface.hpp"
#include "array_.hpp"
#include <cstdio>
int main(){
  brille::shape_t sh{2, 2, 1};
  brille::Array<double> a(sh, 1.0);
  brille::Array<double> other(a);
  brille::Array<double> d = a.decouple();
  brille::shape_t x{1, 1, 0};
  d[x] = 5.0;
  if (a[x] != 1.0){ std::puts("the source changed with its decoupled copy"); return 1; }
  return 0;
}
'''),
dict(id="p13-strided-view-contiguous", property="P13",
 needs="a row-ordered view that leaves out columns at the front and has more than one row",
 what="a view with gaps between its rows is taken for a contiguous array, so copies and conversions use it as one",
 edits=[("src/array2.hpp", "(_shape[0]<2||expected[0]==_stride[0])", "(_shape[0]<2||expected[0]<=_stride[0])")],
 stub=True, libs=ARR, flags="-fopenmp",
 demo=r'''
#include "hdf_interface.hpp"
#include "array_.hpp"
#include <cstdio>
int main(){
  brille::Array2<double> a(3u, 3u, 0.0);
  for (brille::ind_t i = 0; i < 3; ++i) for (brille::ind_t j = 0; j < 3; ++j) a.val(i, j) = 10. * i + j;
  std::array<brille::ind_t, 2> corner{{0, 1}};
  auto v = a.view(corner);
  auto c = v.contiguous_row_ordered_copy();
  brille::shape_t flat{6};
  brille::Array<double> n(v, flat);
  for (brille::ind_t i = 0; i < 3; ++i) for (brille::ind_t j = 0; j < 2; ++j){
    brille::shape_t s{i * 2 + j};
    if (n[s] != 10. * i + j + 1){ std::puts("the conversion of a view holds other elements"); return 1; }
  }
  return c.is_contiguous() ? 0 : 1;
}
'''),
]
