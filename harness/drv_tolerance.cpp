// Calls the tolerant comparisons with exactly representable numbers and tolerances.
#include <cassert>
#include <complex>
#include <array>
#include <vector>
#include "utilities.hpp"
#include "comparisons.hpp"
#include "emit.hpp"
using namespace brille;
static const cmp OPS[8]={cmp::lt,cmp::gt,cmp::le,cmp::ge,cmp::eq,cmp::nle,cmp::nge,cmp::neq};
using VB=std::vector<bool>; using VVB=std::vector<VB>;
static std::vector<int> rd(int n){ std::vector<int> r(n); for(auto& x:r) std::cin>>x; return r; }
static int two(double x){ auto s=emit::scaled(x,1,1e-6); return s.ok?(int)s.i:-1999999999; }
template<class T,class R> void pairt(T a, R b, T tt, R rt, int tol, VB& eq, VVB& c, bool gated=true){
  if (gated) eq.push_back(approx_float::scalar(a,b,tt,rt,tol));
  std::vector<T> va{a}; std::vector<R> vb{b}; eq.push_back(approx_float::vector<T,R>((size_t)1,va.data(),vb.data(),tt,rt,tol)); eq.push_back(approx_float::equal(va,vb,tt,rt,tol));
  VB o; for (auto op: OPS){ Comparer<T,R> k(op,tt,rt,tol); o.push_back(k(a,b)); } c.push_back(o);
}
template<class T,class R> void listt(const std::vector<T>& a, const std::vector<R>& b, T tt, R rt, size_t sa, size_t sb, VB& eq, VVB& c){
  size_t n=a.size(); eq.push_back(approx_float::vector(n,a.data(),b.data(),tt,rt)); eq.push_back(approx_float::array(n,(size_t)1,a.data(),b.data(),tt,rt)); eq.push_back(approx_float::equal(a,b,tt,rt));
  if (n%2==0) eq.push_back(approx_float::array(n/2,(size_t)2,a.data(),b.data(),tt,rt));
  for (size_t s=1;s*s<=n;++s) if (s*s==n) eq.push_back(approx_float::matrix(s,a.data(),b.data(),tt,rt));
  if (n==3){ eq.push_back(approx_float::vector<T,R>(a.data(),b.data(),tt,rt)); std::array<T,3> x{{a[0],a[1],a[2]}}; std::array<R,3> y{{b[0],b[1],b[2]}}; eq.push_back(approx_float::equal(x,y,tt,rt)); }
  if (n==9) eq.push_back(approx_float::matrix<T,R>(a.data(),b.data(),tt,rt));
  std::vector<T> as(n*sa+1,T(77)); std::vector<R> bs(n*sb+1,R(33)); for(size_t i=0;i<n;++i){ as[i*sa]=a[i]; bs[i*sb]=b[i]; }
  VB o,q; for (auto op: OPS){ Comparer<T,R> k(op,tt,rt); o.push_back(k(n,a.data(),b.data())); q.push_back(k(n,as.data(),sa,bs.data(),sb)); } c.push_back(o); c.push_back(q);
}
template<class T> std::vector<T> sc(const std::vector<int>& v, int m){ std::vector<T> r; for(int x:v) r.push_back((T)std::ldexp((double)x,-m)); return r; }
int main(){
  std::string op;
  while (std::cin>>op){
    if (op=="Reset"){ emit::Event("Reset"); continue; }
    if (op=="Pair"){ int A,B,m,k; std::cin>>A>>B>>m>>k; double a=std::ldexp(A,-m), b=std::ldexp(B,-m), t=std::ldexp(1,-k); float af=(float)a,bf=(float)b,tf=(float)t; VB eq; VVB c;
      pairt<double,double>(a,b,t,t,1,eq,c);
      if (k<=9) { pairt<float,float>(af,bf,tf,tf,1,eq,c); pairt<double,float>(a,bf,t,tf,1,eq,c); pairt<float,double>(af,b,tf,t,1,eq,c); }   // else the default of single precision is the greater
      if (A%(1<<m)==0) { pairt<int,double>(A/(1<<m),b,0,t,1,eq,c); if (k<=9) pairt<long,float>(A/(1<<m),bf,0,tf,1,eq,c); if (A>=0) pairt<unsigned,double>(A/(1<<m),b,0,t,1,eq,c); }
      if (B%(1<<m)==0) { pairt<double,int>(a,B/(1<<m),t,0,1,eq,c); if (B>=0) pairt<double,unsigned long>(a,B/(1<<m),t,0,1,eq,c); }
      // the answer does not depend on the order of the arguments
      eq.push_back(approx_float::scalar(b,a,t,t)); eq.push_back(approx_float::scalar(-a,-b,t,t));
      emit::Event("Pair").f("a",A).f("b",B).f("m",m).f("k",k).f("equal",eq).f("cmp",c);
    } else if (op=="Int"){ int A,B; std::cin>>A>>B; VB eq; VVB c;
      pairt<int,int>(A,B,0,0,1,eq,c); pairt<long,int>(A,B,0,0,1,eq,c); pairt<int,long>(A,B,0,0,3,eq,c); pairt<int,double>(A,(double)B,0,0,1,eq,c); pairt<double,int>(A,B,0,0,1,eq,c); pairt<short,short>((short)A,(short)B,0,0,1,eq,c);
      if (A>=0&&B>=0){ pairt<unsigned,unsigned>(A,B,0,0,1,eq,c); pairt<size_t,size_t>(A,B,0,0,1,eq,c); pairt<unsigned,int>(A,B,0,0,1,eq,c); pairt<double,unsigned>(A,B,0,0,1,eq,c); }
      emit::Event("Int").f("a",A).f("b",B).f("equal",eq).f("cmp",c);
    } else if (op=="DefFloat"){ int A,B,f; std::cin>>A>>B>>f; VB eq; VVB c; float a=std::ldexp((float)A,-8), b=std::ldexp((float)B,-8); pairt<float,float>(a,b,0,0,f,eq,c); pairt<float,double>(a,b,0,0,f,eq,c);
      if (A%256==0) pairt<int,float>(A/256,b,0,0,f,eq,c); if (B%256==0) pairt<float,int>(a,B/256,0,0,f,eq,c);
      emit::Event("DefFloat").f("a",A).f("b",B).f("f",f).f("equal",eq).f("cmp",c);
    } else if (op=="DefRel"){ int A,B,f,e; std::cin>>A>>B>>f>>e; VB eq; VVB c; double a=std::ldexp(std::ldexp(1,46)+A,e), b=std::ldexp(std::ldexp(1,46)+B,e); pairt<double,double>(a,b,0,0,f,eq,c); if (e==0) { pairt<long,double>((long)a,b,0,0,f,eq,c); pairt<double,size_t>(a,(size_t)b,0,0,f,eq,c); }
      emit::Event("DefRel").f("a",A).f("b",B).f("f",f).f("equal",eq).f("cmp",c);
    } else if (op=="DefAbs"){ int A,B,f; std::cin>>A>>B>>f; VB eq; VVB c; double a=std::ldexp(A,-60), b=std::ldexp(B,-60); pairt<double,double>(a,b,0,0,f,eq,c); if (B==0) pairt<double,int>(a,0,0,0,f,eq,c); if (A==0) pairt<unsigned,double>(0,b,0,0,f,eq,c);
      emit::Event("DefAbs").f("a",A).f("b",B).f("equal",eq).f("cmp",c);
    } else if (op=="List"){ int n,m,k,in,sa,sb; std::cin>>n>>m>>k>>in>>sa>>sb; auto A=rd(n),B=rd(n); VB eq; VVB c;
      if (in){ listt<int,int>(A,B,0,0,sa,sb,eq,c); std::vector<long> b(B.begin(),B.end()); listt<int,long>(A,b,0,0,sa,sb,eq,c); std::vector<double> d(A.begin(),A.end()); listt<double,int>(d,B,0,0,sa,sb,eq,c);
        bool pos=true; for(int i=0;i<n;++i) pos=pos&&A[i]>=0&&B[i]>=0; if(pos){ std::vector<unsigned> u(A.begin(),A.end()), v(B.begin(),B.end()); listt<unsigned,unsigned>(u,v,0,0,sa,sb,eq,c);} }
      else { double t=std::ldexp(1,-k); listt<double,double>(sc<double>(A,m),sc<double>(B,m),t,t,sa,sb,eq,c); if(k<=9){ listt<float,float>(sc<float>(A,m),sc<float>(B,m),(float)t,(float)t,sa,sb,eq,c); listt<float,double>(sc<float>(A,m),sc<double>(B,m),(float)t,t,sa,sb,eq,c);} 
        if (m==0) listt<int,double>(A,sc<double>(B,m),0,t,sa,sb,eq,c); }
      emit::Event("List").f("a",A).f("b",B).f("m",m).f("k",k).f("int",in!=0).f("equal",eq).f("cmp",c);
    } else if (op=="Lengths"){ int a,b; std::cin>>a>>b; std::vector<double> x(a,1.), y(b,1.); emit::Event("Lengths").f("a",a).f("b",b).f("equal",approx_float::equal(x,y));
    } else if (op=="Binary"){ int n; std::cin>>n; auto A=rd(n),B=rd(n); std::vector<std::vector<int>> o[5]; const ops all[5]={ops::plus,ops::minus,ops::times,ops::rdiv,ops::ldiv};
      for (int q=0;q<5;++q){ RawBinaryOperator<int> ri(all[q]); RawBinaryOperator<double> rd_(all[q]); std::vector<int> x=A,y=B; if(q==3) for(int i=0;i<n;++i) x[i]=A[i]*B[i]; if(q==4) for(int i=0;i<n;++i){ y[i]=A[i]*B[i]; x[i]=B[i]; }
        std::vector<int> c(n), s(2*n+1), e; ri(n,c.data(),x.data(),y.data()); o[q].push_back(c); std::vector<int> xs(3*n),ys(2*n); for(int i=0;i<n;++i){xs[3*i]=x[i];ys[2*i]=y[i];} ri(n,s.data(),2,xs.data(),3,ys.data(),2); for(int i=0;i<n;++i) e.push_back(s[2*i]); o[q].push_back(e);
        e.clear(); for(int i=0;i<n;++i) e.push_back(ri(x[i],y[i])); o[q].push_back(e); std::vector<double> xd(x.begin(),x.end()),yd(y.begin(),y.end()),zd(n); rd_(n,zd.data(),xd.data(),yd.data()); e.clear(); for(double z:zd) e.push_back(two(z)); o[q].push_back(e); }
      emit::Event("Binary").f("a",A).f("b",B).f("plus",o[0]).f("minus",o[1]).f("times",o[2]).f("rdiv",o[3]).f("ldiv",o[4]);
    } else if (op=="Names"){ std::vector<std::string> c,o; for(auto x:OPS) c.push_back(brille::to_string(x)); for(auto x:{ops::plus,ops::minus,ops::times,ops::rdiv,ops::ldiv}) o.push_back(brille::to_string(x)); emit::Event("Names").f("cmp",c).f("ops",o);
    } else BAD_SCRIPT("unknown op "<<op);
  }
}
