// Calls the small integer linear algebra with integer arguments and reports the answers.
#include <cassert>
#include <numeric>
#include <complex>
#include "utilities.hpp"
#include "linear_algebra.hpp"
#include "emit.hpp"
using namespace brille; using namespace brille::utils;
using VI = std::vector<int>; using VV = std::vector<VI>;
static const int BAD = -1999999999;
template<class T> int asint(T x){ if constexpr (std::is_floating_point_v<T>) { auto s=emit::scaled((double)x,1,1e-6*std::max(1.0,std::fabs((double)x))); return s.ok?(int)s.i:BAD; } else return (int)x; }
template<class C> VI ints(const C& c){ VI r; for (auto x: c) r.push_back(asint(x)); return r; }
static VI rd(int n){ VI r(n); for(auto& x:r) std::cin>>x; return r; }
template<class T> std::vector<T> as(const VI& a){ return std::vector<T>(a.begin(), a.end()); }
template<class T, size_t N> std::array<T,N> arr(const VI& a){ std::array<T,N> r; for(size_t i=0;i<N;++i) r[i]=(T)a[i]; return r; }
template<class T> void square(int n, const VI& a, VI& det, VV& adj){ auto x=as<T>(a); std::vector<T> y(n*n); det.push_back(asint(matrix_determinant(x.data(), n))); matrix_adjoint(y.data(), x.data(), n); adj.push_back(ints(y)); }
template<int N> void fixedn(const VI& a, VI& tr, VV& tp, VV& me){
  auto x=as<int>(a); auto d=as<double>(a); VI y(N*N); std::vector<double> z(N*N);
  tr.push_back(trace<int,N>(x.data())); tr.push_back(asint(trace<double,N>(d.data())));
  matrix_transpose<int,N>(y.data(), x.data()); tp.push_back(y);
  matrix_transpose<double,N>(z.data(), d.data()); tp.push_back(ints(z));
  array_transpose<int,N,N>(y.data(), x.data()); tp.push_back(y);
  auto w=x; matrix_transpose<int,N>(w.data()); tp.push_back(w);
  { std::vector<std::complex<double>> c(N*N), e(N*N); for(int i=0;i<N*N;++i) c[i]={d[i],1.0+i}; complex_conj_matrix_transpose<double,N>(e.data(), c.data());
    VI re; for(int i=0;i<N;++i) for(int j=0;j<N;++j){ re.push_back(e[i*N+j].imag()==-(1.0+j*N+i) ? asint(e[i*N+j].real()) : BAD); } tp.push_back(re); }
  matrix_metric<int,N>(y.data(), x.data()); me.push_back(y);
}
template<size_t n,size_t k,size_t m> void prodt(const VI& a, const VI& b, VV& out){ VI c(n*m); multiply_arrays<int,int,int,n,k,m>(c.data(), a.data(), b.data()); out.push_back(c);
  auto x=as<double>(a); std::vector<double> z(n*m); multiply_arrays<double,double,int,n,k,m>(z.data(), x.data(), b.data()); out.push_back(ints(z)); }
int main(){
  std::string op;
  while (std::cin >> op){
    if (op=="Reset"){ emit::Event("Reset"); continue; }
    if (op=="Matrix"){ int n; std::cin>>n; auto a=rd(n*n); VI det,tr; VV adj,invd,invi,tp,me; std::vector<bool> inv;
      square<int>(n,a,det,adj); square<long>(n,a,det,adj); square<double>(n,a,det,adj);
      { auto x=as<double>(a); std::vector<double> y(n*n), y2(n*n); bool ok=matrix_inverse(y.data(), x.data(), 0.0, n); inv.push_back(ok);
        double d=matrix_determinant_and_inverse(y2.data(), x.data(), 0.0, n); det.push_back(asint(d)); inv.push_back(d!=0);
        if (ok){ for(auto& v:y) v*=d; invd.push_back(ints(y)); for(auto& v:y2) v*=d; invd.push_back(ints(y2)); } }
      { VI y(n*n); bool ok=matrix_inverse(y.data(), a.data(), 0, n); inv.push_back(ok); if(ok && (det[0]==1||det[0]==-1)) invi.push_back(y); }
      if (n==2){ fixedn<2>(a,tr,tp,me); auto [ok,d,lu]=linear_algebra::LU_decomposition(arr<double,4>(a)); det.push_back(asint(d)); }
      if (n==3){ fixedn<3>(a,tr,tp,me); tp.push_back(ints(brille::transpose(arr<int,9>(a))));
        auto [ok,d,lu]=linear_algebra::LU_decomposition(arr<double,9>(a)); det.push_back(asint(d));
        if (det[0]!=0){ auto q=linear_algebra::mat_inverse(arr<double,9>(a)); for(auto& v:q) v*=det[0]; invd.push_back(ints(q)); }
        if (std::abs(det[0])==1) invi.push_back(ints(linear_algebra::mat_inverse(arr<int,9>(a))));
        det.push_back(matrix_determinant(a.data())); VI y(9); matrix_adjoint(y.data(), a.data()); adj.push_back(y); }
      if (n==4){ fixedn<4>(a,tr,tp,me); auto [ok,d,lu]=linear_algebra::LU_decomposition(arr<double,16>(a)); det.push_back(asint(d)); }
      emit::Event("Matrix").f("n",n).f("a",a).f("det",det).f("adj",adj).f("invertible",inv).f("invd",invd).f("invi",invi).f("trace",tr).f("transpose",tp).f("metric",me);
    } else if (op=="Product"){ int n,k,m; std::cin>>n>>k>>m; auto a=rd(n*k), b=rd(k*m); VV out;
      { VI c(n*m,7); mul_arrays(c.data(), n,k,m, a.data(), b.data()); out.push_back(c); }
      { auto x=as<double>(a); std::vector<double> c(n*m,7); mul_arrays(c.data(),(size_t)n,(size_t)k,(size_t)m,x.data(),b.data()); out.push_back(ints(c)); }
      if (n==k&&k==m){ VI c(n*n,7); mul_mat_mat(c.data(), n, a.data(), b.data()); out.push_back(c); }
      if (n==k&&m==1){ VI c(n,7); mul_mat_vec(c.data(), n, a.data(), b.data()); out.push_back(c); auto x=as<double>(a); auto v=as<double>(b); mul_mat_vec_inplace((unsigned)n, x.data(), v.data()); out.push_back(ints(v)); }
      if (n==1&&k==m){ VI c(k,7); mul_vec_mat(c.data(), k, a.data(), b.data()); out.push_back(c); }
      if (n==3&&k==3&&m==3){ prodt<3,3,3>(a,b,out); VI c(9); multiply_matrix_matrix<int,int,int,3>(c.data(),a.data(),b.data()); out.push_back(c); out.push_back(ints(linear_algebra::mul_mat_mat(arr<int,9>(a),arr<int,9>(b)))); }
      if (n==2&&k==2&&m==2){ prodt<2,2,2>(a,b,out); out.push_back(ints(linear_algebra::mul_mat_mat(arr<double,4>(a),arr<int,4>(b)))); }
      if (n==3&&k==3&&m==1){ prodt<3,3,1>(a,b,out); VI c(3); multiply_matrix_vector<int,int,int,3>(c.data(),a.data(),b.data()); out.push_back(c); out.push_back(ints(linear_algebra::mul_mat_vec(arr<int,9>(a),arr<double,3>(b)))); }
      if (n==1&&k==3&&m==3){ prodt<1,3,3>(a,b,out); VI c(3); multiply_vector_matrix<int,int,int,3>(c.data(),a.data(),b.data()); out.push_back(c); out.push_back(ints(linear_algebra::mul_vec_mat(arr<int,3>(a),arr<int,9>(b)))); }
      if (n==2&&k==3&&m==4) prodt<2,3,4>(a,b,out);
      if (n==4&&k==3&&m==2) prodt<4,3,2>(a,b,out);
      emit::Event("Product").f("n",n).f("k",k).f("m",m).f("a",a).f("b",b).f("out",out);
    } else if (op=="Complex"){ int n,k,m; std::cin>>n>>k>>m; auto a=rd(n*k), b=rd(n*k), c=rd(k*m), d=rd(k*m);
      std::vector<std::complex<double>> A(n*k), C(k*m), R(n*m,{5,5}); for(int i=0;i<n*k;++i) A[i]={(double)a[i],(double)b[i]}; for(int i=0;i<k*m;++i) C[i]={(double)c[i],(double)d[i]};
      auto da=as<double>(a), dc=as<double>(c);
      auto split=[&](){ VV o(2); for (auto& z: R){ o[0].push_back(asint(z.real())); o[1].push_back(asint(z.imag())); } std::fill(R.begin(),R.end(),std::complex<double>(5,5)); return o; };
      mul_arrays(R.data(),n,k,m,A.data(),C.data()); auto cc=split(); mul_arrays(R.data(),n,k,m,da.data(),C.data()); auto rc=split(); mul_arrays(R.data(),n,k,m,A.data(),dc.data()); auto cr=split();
      emit::Event("Complex").f("n",n).f("k",k).f("m",m).f("a",a).f("b",b).f("c",c).f("d",d).f("cc",cc).f("rc",rc).f("cr",cr);
    } else if (op=="Similar"){ int n; std::cin>>n; auto a=rd(n*n), b=rd(n*n); auto x=as<double>(a), y=as<double>(b); std::vector<double> z(n*n); bool ok=false; double d=matrix_determinant(y.data(),n);
      if (n==2) ok=similar_matrix<double,2>(z.data(),x.data(),y.data()); else ok=similar_matrix<double,3>(z.data(),x.data(),y.data());
      for(auto& v:z) v*=d; emit::Event("Similar").f("n",n).f("a",a).f("b",b).f("ok",ok).f("out",ints(z));
    } else if (op=="Sums"){ auto a=rd(9), b=rd(9); VI s(9),t(9),c(9); std::vector<double> y=as<double>(b), w(9);
      add_matrix<int,int,int,3>(s.data(),a.data(),b.data()); subtract_matrix<double,int,double,3>(w.data(),a.data(),y.data()); t=ints(w); copy_matrix<int,3>(c.data(),a.data());
      emit::Event("Sums").f("a",a).f("b",b).f("add",s).f("sub",t).f("copy",c).f("equal",equal_matrix<int,3>(a.data(),b.data())).f("self",equal_array<int,3,3>(a.data(),c.data()) && equal_vector<int,9>(c.data(),a.data()));
    } else if (op=="TransposeNM"){ int n,m; std::cin>>n>>m; auto a=rd(n*m); VI o(n*m);
      if(n==2&&m==3) array_transpose<int,2,3>(o.data(),a.data()); else if(n==3&&m==2) array_transpose<int,3,2>(o.data(),a.data()); else if(n==1) array_transpose<int,1,4>(o.data(),a.data()); else if (n==4) array_transpose<int,4,3>(o.data(),a.data());
      emit::Event("TransposeNM").f("n",n).f("m",m).f("a",a).f("out",o);
    } else if (op=="Vectors"){ unsigned n; std::cin>>n; auto a=rd(n), b=rd(n); auto x=as<double>(a), y=as<double>(b); auto xf=as<float>(a); VI dot,n2,d2,c2; VV cr;
      dot.push_back(vector_dot<int>((size_t)n,a.data(),b.data())); dot.push_back(asint(vector_dot<double>((size_t)n,x.data(),b.data()))); dot.push_back(asint(vector_product((size_t)n,x.data(),y.data()))); dot.push_back(asint(hermitian_product(n,x.data(),y.data())));
      dot.push_back(linear_algebra::dot(a,b)); dot.push_back(asint(linear_algebra::dot(a,y)));
      d2.push_back(asint(std::pow(vector_distance(n,x.data(),y.data()),2))); n2.push_back(asint(std::pow(linear_algebra::norm(x),2)));
      double ct=std::cos(vector_angle(n,x.data(),y.data())), ch=std::cos(hermitian_angle(n,x.data(),y.data())); double nn=0,mm=0; for(unsigned i=0;i<n;++i){ nn+=x[i]*x[i]; mm+=y[i]*y[i]; }
      c2.push_back(asint(std::fabs(ct)*ct*nn*mm)); c2.push_back(asint(std::fabs(ch)*ch*nn*mm));
      if (n==3){ dot.push_back(vector_dot<int,3>(a.data(),b.data())); dot.push_back(linear_algebra::dot(arr<int,3>(a),arr<int,3>(b))); n2.push_back(vector_norm_squared<int,3>(a.data())); n2.push_back(asint(std::pow(linear_algebra::norm(arr<double,3>(a)),2)));
        VI c(3); vector_cross<int,int,int,3>(c.data(),a.data(),b.data()); cr.push_back(c); std::vector<double> d(3); vector_cross(d.data(),x.data(),b.data()); cr.push_back(ints(d));
        if (nn>0){ auto h=linear_algebra::hat(arr<double,3>(a)); double q=h[0]*y[0]+h[1]*y[1]+h[2]*y[2]; q*=std::sqrt(nn); dot.push_back(asint(q)); } }
      if (n==2) n2.push_back(vector_norm_squared<int,2>(a.data()));
      if (n==4){ d2.push_back(asint(std::pow(frobenius_distance(2u,x.data(),y.data()),2))); }
      emit::Event("Vectors").f("a",a).f("b",b).f("dot",dot).f("norm2",n2).f("dist2",d2).f("cross",cr).f("cos2",c2);
    } else if (op=="Hermitian"){ unsigned n; std::cin>>n; auto a=rd(n),b=rd(n),c=rd(n),d=rd(n); std::vector<std::complex<double>> A(n),C(n),P(n); for(unsigned i=0;i<n;++i){A[i]={(double)a[i],(double)b[i]};C[i]={(double)c[i],(double)d[i]};}
      auto x=as<double>(a), y=as<double>(c); auto z=[](std::complex<double> q){ return VI{asint(q.real()),asint(q.imag())}; };
      auto cc=hermitian_product(n,A.data(),C.data()); int c2=asint(vector_product(n,A.data(),C.data()));
      // after removing the phase the product is real and not negative and its size is unchanged
      inplace_antiphase(n,A.data(),C.data(),P.data()); auto pp=hermitian_product(n,A.data(),P.data()); auto ph=antiphase(cc);
      bool ok = std::fabs(pp.imag())<1e-8 && std::fabs(pp.real()-std::abs(cc))<1e-8 && (std::abs(cc)==0 || std::abs(ph*cc-std::abs(cc))<1e-8) && std::fabs(std::abs(ph)-1)<1e-12;
      for(unsigned i=0;i<n;++i) ok = ok && std::fabs(magnitude(A[i])*magnitude(A[i])-(a[i]*a[i]+b[i]*b[i]))<1e-8 && squared_distance(A[i],C[i])==(a[i]-c[i])*(a[i]-c[i])+(b[i]-d[i])*(b[i]-d[i]);
      emit::Event("Hermitian").f("a",a).f("b",b).f("c",c).f("d",d).f("cc",z(cc)).f("cc2",c2).f("rc",z(hermitian_product(n,x.data(),C.data()))).f("cr",z(hermitian_product(n,A.data(),y.data())))
        .f("dist2",asint(std::pow(vector_distance(n,A.data(),C.data()),2))).f("phase_ok",ok);
    } else if (op=="Number"){ int p,q; std::cin>>p>>q; double v=(double)p/q; VI r{my_cast<int>(v)}; VI m(9); std::vector<double> s(9,v); cast_matrix<int,double,3>(m.data(),s.data()); VI w(9); cast_vector<int,double,9>(w.data(),s.data()); for(int x:w) r.push_back(x);
      auto f=emit::scaled(mod1(v),q,1e-7);
      std::vector<double> t(9,1.0); t[q%9]=v;
      emit::Event("Number").f("p",p).f("q",q).f("round",r).f("castmat",m).f("mod1",f.ok?(int)f.i:BAD).f("isint",is_int_matrix<double,double,3>(t.data(),1e-9));
    } else if (op=="Gcd"){ unsigned a,b; std::cin>>a>>b; VI o{(int)gcd(a,b),(int)gcd((unsigned long)a,(unsigned long)b),(int)gcd(b,a),(int)gcd((unsigned short)a,(unsigned short)b)};
      emit::Event("Gcd").f("a",a).f("b",b).f("out",o);
    } else if (op=="Binom"){ unsigned n,k; std::cin>>n>>k; bool e=false,pa=true,sy=true,ab=true; int sm=0;
      try { auto v=binomial_coefficient(n,k); if(n<=12) sm=(int)v; 
        if (n>0&&k>0&&k<n) pa = v==binomial_coefficient(n-1,k-1)+binomial_coefficient(n-1,k); else pa = v==1;
        sy = v==binomial_coefficient(n,n-k) && v==binomial_coefficient((unsigned long)n,k);
        if (k>0) ab = (unsigned __int128)v*k==(unsigned __int128)binomial_coefficient(n-1,k-1)*n; } catch(const std::domain_error&){ e=true; }
      emit::Event("Binom").f("n",n).f("k",k).f("error",e).f("small",sm).f("pascal",pa).f("symmetric",sy).f("absorb",ab);
    } else if (op=="Angle"){ int k; std::cin>>k; auto two=[](double v){ auto s=emit::scaled(v,2,1e-9); return s.ok?(int)s.i:BAD; }; auto ex=[](double v){ return v==0?0:v==1?1:v==-1?-1:BAD; };
      double d=15.0*k; double c=math::cosd(d), s=math::sind(d); auto [c1,s1]=math::cos_and_sin_d(d); auto [c3,s3]=math::cos_and_sin(math::degree_to_radian(d));
      emit::Event("Angle").f("k",k).f("cos2",two(math::cosd(60.0*k))).f("cosd90",ex(math::cosd(90.0*k))).f("sind90",ex(math::sind(90.0*k))).f("sin30x2",two(math::sind(60.0*k+30)))
        .f("pythagoras",std::fabs(c*c+s*s-1)<1e-12 && std::fabs(c-std::cos(d*3.14159265358979323846/180))<1e-12 && std::fabs(s-std::sin(d*3.14159265358979323846/180))<1e-12)
        .f("pair",std::fabs(c1-c)<1e-12&&std::fabs(s1-s)<1e-12&&std::fabs(c3-c)<1e-12&&std::fabs(s3-s)<1e-12);
    } else if (op=="Convert"){ int v,s; std::cin>>v>>s; int a,b; try{ a=u2s<signed char>((unsigned)v); }catch(const std::overflow_error&){a=-1;} try{ b=(int)s2u<unsigned>(s);}catch(const std::overflow_error&){b=-1;}
      emit::Event("Convert").f("v",v).f("smax",127).f("u2s",a).f("s",s).f("s2u",b);
    } else BAD_SCRIPT("unknown op "<<op);
  }
}
