// TITLE: polynomials evaluate and differentiate exactly for every coefficient container
// BOUNDS: coefficient containers std::vector, std::array, std::tuple (values and integral constants mixed), std::integer_sequence, std::initializer_list with 0..6 entries; scalar types double and long; all coefficients and arguments symbolic (reals in [-3,3], integers in [-4,4]); all derivative orders until the zero polynomial and one beyond
// CASE: vector -DPART=1
// CASE: array -DPART=2
// CASE: tuple -DPART=3
// CASE: sequence -DPART=4
// CASE: integer -DPART=5
#include <config.h>
#include <array>
#include <vector>
#include <tuple>
#include <utility>
#include "sym.h"
#include <dune/functions/analyticfunctions/polynomial.hh>
using namespace Dune; using namespace Dune::Functions; using std::size_t;
constexpr int N = VERIF_THOROUGH ? 7 : 5;
// reference: k-th derivative of sum c_i x^i, straight from the definition (falling factorials and repeated multiplication)
template<class K> K ref(const std::vector<K>& c,const K& x,size_t k){
  K s=0; for(size_t i=k;i<c.size();i++){ K t=c[i]; for(size_t q=0;q<k;q++) t=t*K(i-q); for(size_t q=k;q<i;q++) t=t*x; s=s+t; } return s; }
template<class K> void eq(const K& a,const K& b,const char* m){ if constexpr(std::is_floating_point_v<K>) CHECK_EQ(a,b,"polynomial value"); else CHECK(a==b,"polynomial value"); }
template<class K,class P> void derivs(const P& p,const std::vector<K>& c,const K& x,size_t k=0){
  eq<K>(p(x),ref(c,x,k),""); }
// checks p, p', p'', ... (compile-time recursion, every order may have another type)
template<size_t left,class K,class P> void allDerivs(const P& p,const std::vector<K>& c,const K& x,size_t k=0){
  derivs(p,c,x,k);
  if constexpr(left>0){ auto d=derivative(p); allDerivs<left-1>(d,c,x,k+1); derivs(p,c,x,k); } }
#if PART==1
extern "C" void harness(){
  size_t n=symPick("n",0,N); std::vector<double> c(n); for(auto& v: c) v=symReal("c",-3,3); double x=symReal("x",-3,3);
  Polynomial<double> p(c); allDerivs<N+1>(p,c,x);
  CHECK(p.coefficients().size()==n,"number of coefficients");
  for(size_t i=0;i<n;i++) CHECK_EQ(p.coefficients()[i],c[i],"stored coefficients");
  auto d=derivative(p); auto q=p; CHECK(q==p,"a copy compares equal");
  // the derivative and the copy own their coefficients
  p=Polynomial<double>(std::vector<double>{1.,2.}); derivs(d,c,x,1); derivs(q,c,x,0); CHECK_EQ(p(x),1+2*x,"assigned polynomial");
  // deduction guides and factories
  auto a=Polynomial(c); static_assert(std::is_same_v<decltype(a),Polynomial<double,std::vector<double>>>); derivs(a,c,x,0);
  auto b=makePolynomial<double>(c); derivs(b,c,x,0);
  double u=symReal("u",-3,3), v=symReal("v",-3,3);
  Polynomial il({u,v,1.}); CHECK_EQ(il(x),u+v*x+x*x,"deduced from an initializer list"); CHECK_EQ(derivative(il)(x),v+2*x,"derivative, initializer list");
  auto im=makePolynomial<double>({u,v,1.}); CHECK_EQ(im(x),u+v*x+x*x,"made from an initializer list");
  auto ii=makePolynomial<double>({4,0,2}); CHECK_EQ(ii(x),4+2*x*x,"made from an initializer list with another coefficient type"); CHECK_EQ(derivative(ii)(x),4*x,"its derivative");
  Polynomial<double> e; CHECK_EQ(e(x),0.,"default constructed polynomial"); CHECK_EQ(derivative(e)(x),0.,"its derivative");
  std::vector<double> c2(n); bool same=true; for(size_t i=0;i<n;i++){ bool other=i==0 && symBool("other"); c2[i]=other?c[i]+1:c[i]; same&=!other; }
  CHECK((Polynomial<double>(c2)==q)==same,"comparison compares the coefficients");
  REACH("end");
}
#elif PART==2
template<size_t n> void one(){ std::array<double,n> a; std::vector<double> c(n); for(size_t i=0;i<n;i++) a[i]=c[i]=symReal("c",-3,3); double x=symReal("x",-3,3);
  auto p=Polynomial(a); static_assert(std::is_same_v<decltype(p),Polynomial<double,std::array<double,n>>>); allDerivs<n+1>(p,c,x); CHECK(p==Polynomial(a),"equal polynomials compare equal");
  auto q=makePolynomial<double>(a); allDerivs<n+1>(q,c,x);
  std::array<int,n> ai; std::vector<double> ci(n); for(size_t i=0;i<n;i++){ ai[i]=int(i*i)-3; ci[i]=double(ai[i]); } auto r=makePolynomial<double>(ai); allDerivs<n+1>(r,ci,x);
  std::vector<int> vi(ai.begin(),ai.end()); auto s=makePolynomial<double>(vi); allDerivs<n+1>(s,ci,x); }
extern "C" void harness(){ switch(symPick("n",1,N)){ case 1: one<1>(); break; case 2: one<2>(); break; case 3: one<3>(); break; case 4: one<4>(); break; case 5: one<5>(); break; 
#if VERIF_THOROUGH
 case 6: one<6>(); break; case 7: one<7>(); break;
#endif
 } REACH("end"); }
#elif PART==3
template<int i> using I=std::integral_constant<int,i>; template<long i> using L=std::integral_constant<long,i>;
template<class... T> void one(T... t){ std::vector<double> c{double(t)...}; double x=symReal("x",-3,3);
  auto p=makePolynomial<double>(std::tuple(t...)); allDerivs<sizeof...(T)+1>(p,c,x); CHECK(p==makePolynomial<double>(std::tuple(t...)),"equal polynomials compare equal"); }
extern "C" void harness(){ double u=symReal("u",-3,3), v=symReal("v",-3,3), w=symReal("w",-3,3);
  switch(symPick("k",0,9)){
    case 0: { double x=symReal("x",-3,3); auto p=makePolynomial<double>(std::tuple<>()); CHECK_EQ(p(x),0.,"empty tuple"); CHECK_EQ(derivative(p)(x),0.,"its derivative"); break; }
    case 1: one(u); break; case 2: one(I<-2>()); break; case 3: one(u,I<0>(),v); break; case 4: one(I<0>(),I<0>(),I<-3>()); break; case 5: one(I<1>(),u,I<0>(),v,w); break;
    case 6: one(-2,u,3,L<-1>()); break; case 7: one(I<0>(),I<0>(),I<0>(),I<5>(),u); break; case 8: one(u,v,w,u,v); break; case 9: one(I<2>(),I<-1>(),I<0>(),I<4>(),I<-7>(),I<1>()); break; }
  REACH("end"); }
#elif PART==4
template<class T,T... i> void one(){ std::vector<double> c{double(i)...}; double x=symReal("x",-3,3);
  auto p=makePolynomial<double>(std::integer_sequence<T,i...>()); allDerivs<sizeof...(i)+1>(p,c,x); CHECK(p==makePolynomial<double>(std::integer_sequence<T,i...>()),"equal polynomials compare equal"); }
extern "C" void harness(){
  switch(symPick("k",0,7)){ case 0: one<int>(); break; case 1: one<int,-5>(); break; case 2: one<int,1,2,3>(); break; case 3: one<long,0,0,-2,7>(); break; case 4: one<int,4,-3,0,0,1>(); break; case 5: one<unsigned,1,0,3>(); break; case 6: one<int,0,0,0,0,0,1>(); break;
    case 7: { long x=(long)symInt("x",0,8)-4; auto p=Polynomial(std::integer_sequence<long,3,-1,0,2>()); CHECK(p(x)==3-x+2*x*x*x,"deduced integer polynomial"); CHECK(derivative(p)(x)==-1+6*x*x,"its derivative"); CHECK(derivative(derivative(p))(x)==12*x,"second derivative"); break; } }
  REACH("end"); }
#elif PART==5
extern "C" void harness(){ size_t n=symPick("n",0,4); std::vector<long> c(n); for(auto& v: c) v=(long)symInt("c",0,8)-4; long x=(long)symInt("x",0,8)-4;
  Polynomial<long> p(c); allDerivs<5>(p,c,x); auto q=makePolynomial<long>(c); allDerivs<5>(q,c,x);
  std::array<long,3> a{c.size()>0?c[0]:1,(long)symInt("a",0,8)-4,-2}; allDerivs<4>(Polynomial(a),std::vector<long>(a.begin(),a.end()),x); REACH("end"); }
#endif
