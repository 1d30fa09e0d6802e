// Lattices from integer metric tensors, for the drivers.
#pragma once
#include "motions.hpp"
#include "lattice_dual.hpp"
#include "array_.hpp"
#include "array_l_.hpp"
namespace gr {
using namespace brille; using namespace brille::lattice;
typedef std::array<double,9> D9; typedef std::array<double,3> D3; typedef std::array<int,6> G6;   // 11 22 33 23 13 12
const double TP = 2*3.14159265358979323846;
const long long NOT = 1000000007;                   // what is not the integer it should be
inline long long ri(double x, double s=1){ double y=x*s; if (!std::isfinite(y)||std::fabs(y)>1e9) return NOT; double r=std::nearbyint(y); return std::fabs(y-r)<=1e-6*(1+std::fabs(y)*1e-3)?(long long)r:NOT; }
template<class V> std::string rv(const V& v, double s=1){ std::vector<long long> o; for (auto x: v) o.push_back(ri((double)x,s)); return emit::val(o); }
inline std::string rarr(const bArray<double>& a, double s=1){ std::string o="["; for (ind_t i=0;i<a.size(0);++i){ o+=i?",":""; std::vector<long long> r; for (ind_t j=0;j<a.size(1);++j) r.push_back(ri(a.val(i,j),s)); o+=emit::val(r);} return o+"]"; }
inline std::string rcol(const bArray<double>& a, double s=1){ std::vector<long long> r; for (ind_t i=0;i<a.size(0);++i) r.push_back(ri(a.val(i,0),s)); return emit::val(r); }
inline G6 g6(std::istream& in){ G6 g; for (auto& x: g) x=mo::num(in); return g; }
inline double detg(const G6& g){ double a=g[0],b=g[1],c=g[2],d=g[3],e=g[4],f=g[5]; return a*b*c+2*d*e*f-a*d*d-b*e*e-c*f*f; }
inline D9 mul(const D9& a, const D9& b){ D9 o{}; for (int i=0;i<3;++i) for (int j=0;j<3;++j) for (int k=0;k<3;++k) o[3*i+j]+=a[3*i+k]*b[3*k+j]; return o; }
inline D9 tr(const D9& a){ return {a[0],a[3],a[6],a[1],a[4],a[7],a[2],a[5],a[8]}; }
// column vectors of a basis with this metric, turned by the rotation of an integer quaternion
inline D9 columns(const G6& g, const std::array<int,4>& q){
  double a1=std::sqrt((double)g[0]), b1=g[5]/a1, b2=std::sqrt(g[1]-b1*b1), c1=g[4]/a1, c2=(g[3]-b1*c1)/b2, c3=std::sqrt(g[2]-c1*c1-c2*c2);
  double w=q[0],x=q[1],y=q[2],z=q[3], n=w*w+x*x+y*y+z*z;
  D9 r={w*w+x*x-y*y-z*z,2*(x*y-w*z),2*(x*z+w*y), 2*(x*y+w*z),w*w-x*x+y*y-z*z,2*(y*z-w*x), 2*(x*z-w*y),2*(y*z+w*x),w*w-x*x-y*y+z*z};
  for (auto& v: r) v/=n;
  D9 a={a1,b1,c1, 0,b2,c2, 0,0,c3};
  return mul(r,a);
}
inline D3 lens(const G6& g){ return {std::sqrt((double)g[0]),std::sqrt((double)g[1]),std::sqrt((double)g[2])}; }
inline D3 angs(const G6& g, AngleUnit au){ D3 l=lens(g), a={std::acos(g[3]/l[1]/l[2]),std::acos(g[4]/l[0]/l[2]),std::acos(g[5]/l[0]/l[1])};
  for (auto& x: a) x *= au==AngleUnit::degree ? 180/(TP/2) : au==AngleUnit::pi ? 2/TP : 1; return a; }
inline AngleUnit unit(const std::string& s){ return s=="deg"?AngleUnit::degree:s=="pi"?AngleUnit::pi:AngleUnit::radian; }
}
