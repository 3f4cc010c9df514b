// TITLE: monomial sets enumerate every exponent once; values, Jacobians and Hessians use that enumeration
// BOUNDS: dimensions 1..3, maximal degree 0..4 (thorough: 0..6 in 1d, 0..5 in 2d, 0..5 in 3d); every argument in [-3,3]^dim (symbolic reals), also integer domain fields; order of the documentation; evaluation at compile time
// CASE: dim1 -DDIM=1
// CASE: dim2 -DDIM=2
// CASE: dim3 -DDIM=3
#include <config.h>
#include <array>
#include "sym.h"
#include <dune/functions/analyticfunctions/monomialset.hh>
using namespace Dune; using namespace Dune::Functions; using std::size_t;
// value of d^a x^e (a and e multi-indices) from the definition
template<class E,class X> double ref(const E& e,const std::array<size_t,DIM>& a,const X& x){
  double r=1; for(int j=0;j<DIM;j++){ if(a[j]>e[j]) return 0; for(size_t q=0;q<a[j];q++) r*=double(e[j]-q); for(size_t q=a[j];q<e[j];q++) r*=x[j]; } return r; }
template<int deg> void one(){
  using M=MonomialSet<double,DIM,deg>; M m; constexpr auto e=M::exponents(); constexpr int n=M::size;
  static_assert(e.size()==size_t(n));
  // every exponent of total degree <=deg exactly once, in the documented order
  size_t count=0; size_t k=0;
  auto expect=[&](std::array<size_t,DIM> x){ CHECK(k<size_t(n),"number of monomials"); for(int j=0;j<DIM;j++) CHECK(e[k][j]==x[j],"documented order of the exponents"); k++; count++; };
  if constexpr(DIM==1) for(size_t d=0;d<=deg;d++) expect({d});
  else if constexpr(DIM==2) for(size_t d=0;d<=deg;d++) for(size_t j=0;j<=d;j++) expect({d-j,j});
  else for(size_t d=0;d<=deg;d++) for(size_t z=0;z<=d;z++) for(size_t y=0;y<=d-z;y++) expect({d-z-y,y,z});
  CHECK(count==size_t(n),"number of monomials");
  FieldVector<double,DIM> x; for(int j=0;j<DIM;j++) x[j]=symReal("x",-3,3);
  auto v=m(x); auto D=derivative(m); auto J=D(x); auto H=derivative(D)(x);
  static_assert(v.size()==size_t(n) && J.N()==size_t(n) && J.M()==DIM && std::tuple_size<decltype(H)>::value==size_t(n));
  for(size_t q=0;q<size_t(n);q++){ std::array<size_t,DIM> z{};
    CHECK_EQ(v[q],ref(e[q],z,x),"value of the monomial with exponent exponents()[k]");
    for(int i=0;i<DIM;i++){ auto a=z; a[i]++; CHECK_EQ(J[q][i],ref(e[q],a,x),"first derivative of the monomial");
      for(int j=0;j<DIM;j++){ auto b=a; b[j]++; CHECK_EQ(H[q][i][j],ref(e[q],b,x),"second derivative of the monomial"); } } }
  // the evaluation point may be of another field type
  FieldVector<int,DIM> xi; FieldVector<double,DIM> xd; for(int j=0;j<DIM;j++){ xi[j]=2-3*j; xd[j]=2-3*j; }
  auto vi=m(xi), vd=m(xd); for(int q=0;q<n;q++) CHECK_EQ(vi[q],vd[q],"value at integer points");
  auto Ji=D(xi), Jd=D(xd); auto Hi=derivative(D)(xi), Hd=derivative(D)(xd);
  for(int q=0;q<n;q++) for(int i=0;i<DIM;i++){ CHECK_EQ(Ji[q][i],Jd[q][i],"derivative at integer points"); for(int j=0;j<DIM;j++) CHECK_EQ(Hi[q][i][j],Hd[q][i][j],"Hessian at integer points"); } }
constexpr int MAXDEG = VERIF_THOROUGH ? (DIM==1?6:5) : 4;
extern "C" void harness(){ switch(symPick("degree",0,MAXDEG)){ case 0: one<0>(); break; case 1: one<1>(); break; case 2: one<2>(); break; case 3: one<3>(); break; case 4: one<4>(); break;
#if VERIF_THOROUGH
  case 5: one<5>(); break;
#if DIM==1
  case 6: one<6>(); break;
#endif
#endif
  } REACH("end"); }
