// TITLE: trigonometric functions and their derivatives of every order
// BOUNDS: factor pairs (a,b) out of {-3,-1,0,2,5}^2; every argument; derivative orders 0..5; sin and cos are uninterpreted functions with values in [-1,1] (so the coefficients of sin(x) and cos(x) are compared)
// CASE: all
#include <config.h>
#include "sym.h"
#include <dune/functions/analyticfunctions/trigonometricfunction.hh>
using namespace Dune; using namespace Dune::Functions;
template<int k,class F> void derivs(const F& f,double x,double s,double c,int a,int b){
  CHECK_EQ(f(x),a*s+b*c,"value of a sin(x) + b cos(x)");
  if constexpr(k>0){ auto d=derivative(f); derivs<k-1>(d,x,s,c,-b,a); CHECK_EQ(f(x),a*s+b*c,"value after differentiation"); } }
template<int a,int b> void one(){ double x=symReal("x",-10,10); double s=std::sin(x), c=std::cos(x); derivs<5>(TrigonometricFunction<double,a,b>(),x,s,c,a,b);
  REACH("end"); }
template<int a> void row(int b){ switch(b){ case 0: one<a,-3>(); break; case 1: one<a,-1>(); break; case 2: one<a,0>(); break; case 3: one<a,2>(); break; case 4: one<a,5>(); break; } }
extern "C" void harness(){ int a=symPick("a",0,4), b=symPick("b",0,4); switch(a){ case 0: row<-3>(b); break; case 1: row<-1>(b); break; case 2: row<0>(b); break; case 3: row<2>(b); break; case 4: row<5>(b); break; } }
