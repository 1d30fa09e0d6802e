// A small Python module of the wrappers that only name codes.
#include <pybind11/pybind11.h>
#include <pybind11/numpy.h>
#include "_interpolator.hpp"
namespace py = pybind11;
void wrap_bravais(py::module&); void wrap_enums(py::module&); void wrap_interpolator(py::module&);
std::tuple<brille::RotatesLike, brille::LengthUnit, int, int, std::array<double,3>> set_check(py::array_t<int>, py::array_t<double>);
PYBIND11_MODULE(codes, m){
  wrap_bravais(m); wrap_enums(m); wrap_interpolator(m);
  m.def("flags", [](py::array_t<int> a){ auto t = set_check(a, py::array_t<double>(0)); return py::make_tuple((int)std::get<0>(t), (int)std::get<1>(t)); });
  // the same codes as given with the data (the first three numbers are element counts): which pair of codes is meant
  m.def("filled", [](py::array_t<int> a, bool weights){
    using namespace brille;
    py::array_t<double> d({2,1}); auto p = (double*)d.request().ptr; p[0] = 1; p[1] = 2;
    auto i = weights ? fill_check<double>(d, a, py::array_t<double>(0), 2) : fill_check<double>(d, a, 2);
    br::Array<double> ref = br::py2a(d);
    std::vector<std::pair<int,int>> found;
    for (int r=0; r<3; ++r) for (int l=0; l<5; ++l){
      Interpolator<double> o(ref, {{1,0,0}}, static_cast<RotatesLike>(r), static_cast<LengthUnit>(l));
      if (!(i != o)) found.emplace_back(r, l);
    }
    if (found.size() != 1) return py::make_tuple(-2, -2);
    return py::make_tuple(found[0].first, found[0].second); });
}
