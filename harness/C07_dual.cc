// TITLE: Morley, Hermite and Argyris shape functions are dual to the interpolation on any simplex, derivatives are consistent
// BOUNDS: one simplex whose vertices (-DVMOVE of them) are moved arbitrarily by up to 1/4 per coordinate, arbitrary orientation and vertex ids, arbitrary evaluation point; all shape functions, all first and second derivatives
// ASSUME: grid replaced by the mock grid of /verif/harness/mockgrid.hh; double arithmetic is modelled by exact reals, square and cubic roots by algebraic numbers
// CASE: morley -DVB=morley -DVDIM=2 -DVMESH=Tri1 -DVP=2 -DVDERIV
// CASE: hermite1 -DVB=hermite -DVDIM=1 -DVMESH=Line1 -DVP=3 -DVDERIV
// CASE: hermite2 -DVB=hermite -DVDIM=2 -DVMESH=Tri1 -DVP=3 -DVDERIV
// CASE: rhermite2 -DVB=reducedhermite -DVDIM=2 -DVMESH=Tri1 -DVP=2 -DVDERIV
// CASE: hermite3 -DVB=hermite -DVDIM=3 -DVMESH=Tet1 -DVP=3 -DVMOVE=1
// CASE: hermite3_deriv -DVB=hermite -DVDIM=3 -DVMESH=Tet1 -DVP=3 -DVMOVE=0 -DVDERIV -DVNODUAL
// CASE: argyris -DVB=argyris -DVDIM=2 -DVMESH=Tri1 -DVP=5
// CASE: argyris_deriv -DVB=argyris -DVDIM=2 -DVMESH=Tri1 -DVP=5 -DVMOVE=0 -DVDERIV -DVNODUAL
// CASE: argyris_repro -DVB=argyris -DVDIM=2 -DVMESH=Tri1 -DVP=5 -DVMOVE=0 -DVREPRO -DVNODUAL
// CASE: morley_repro -DVB=morley -DVDIM=2 -DVMESH=Tri1 -DVP=2 -DVREPRO -DVNODUAL
// CASE: hermite2_repro -DVB=hermite -DVDIM=2 -DVMESH=Tri1 -DVP=3 -DVREPRO -DVNODUAL
// CASE: rhermite2_repro -DVB=reducedhermite -DVDIM=2 -DVMESH=Tri1 -DVP=2 -DVREPRO -DVNODUAL
// CASE: hermite1_repro -DVB=hermite -DVDIM=1 -DVMESH=Line1 -DVP=3 -DVREPRO -DVNODUAL
// CASE: hermite3_repro -DVB=hermite -DVDIM=3 -DVMESH=Tet1 -DVP=3 -DVMOVE=0 -DVREPRO -DVNODUAL
// CASE-THOROUGH: argyris_deriv_moved -DVB=argyris -DVDIM=2 -DVMESH=Tri1 -DVP=5 -DVMOVE=1 -DVDERIV -DVNODUAL
#include "leafbases.hh"
#include <dune/functions/common/differentiablefunction.hh>
using namespace Dune; using namespace Dune::Functions; using std::size_t;
using Grd=Mock::Grid<VDIM,VDIM,1>; using X=FieldVector<double,VDIM>; using M=FieldMatrix<double,VDIM,VDIM>; using G=FieldMatrix<double,1,VDIM>;
#ifndef VMOVE
#define VMOVE 8
#endif
#ifndef VORI
#define VORI 1
#endif
// a function given by value, global gradient and global Hessian at local coordinates
template<class V,class D,class H> struct Fn { V v; D d; H h; double operator()(const X& x) const { return v(x); }
  struct DFn { const Fn* f; G operator()(const X& x) const { G r; auto g=f->d(x); for(int k=0;k<VDIM;k++) r[0][k]=g[k]; return r; }
    friend auto derivative(const DFn& a){ return [f=a.f](const X& x){ return f->h(x); }; } };
  friend DFn derivative(const Fn& f){ return {&f}; } };
template<class V,class D,class H> Fn<V,D,H> fn(V v,D d,H h){ return {v,d,h}; }
extern "C" void harness(){
  Grd g; Mock::addMesh(g,Mock::VMESH,VORI); int m=0; for(size_t v=1;v<g.x.size() && m<VMOVE;v++,m++) for(int k=0;k<VDIM;k++) g.x[v][k]+=symReal("move",-0.25,0.25); g.finalize();
  auto gv=g.leafGridView(); using namespace BasisFactory; auto b=makeBasis(gv,VBASIS); auto l=b.localView(); auto e=*gv.begin<0>(); l.bind(e);
  auto& fe=l.tree().finiteElement(); auto& lb=fe.localBasis(); auto& li=fe.localInterpolation(); size_t n=fe.size(); CHECK(lb.size()==n && l.size()==n && fe.localCoefficients().size()==n,"sizes agree");
  auto J=e.geometry().jacobian(X(0.25)); M A; for(int i=0;i<VDIM;i++) for(int j=0;j<VDIM;j++) A[i][j]=J[i][j]; M Ai=A; Ai.invert();
  using RT=typename std::decay_t<decltype(lb)>::Traits; std::vector<typename RT::RangeType> val; std::vector<typename RT::JacobianType> jac; std::vector<typename RT::HessianType> hes;
  auto glob=[&](const X& d){ X r; Ai.mtv(d,r); return r; };
  auto globH=[&](const M& h){ M r(0.0); for(int a=0;a<VDIM;a++) for(int c=0;c<VDIM;c++) for(int p=0;p<VDIM;p++) for(int q=0;q<VDIM;q++) r[a][c]+=Ai[p][a]*h[p][q]*Ai[q][c]; return r; };
#ifndef VNODUAL
  for(size_t i=0;i<n;i++){
    auto f=fn([&](const X& x){ lb.evaluateFunction(x,val); return double(val[i]); },[&](const X& x){ lb.evaluateJacobian(x,jac); X d; for(int k=0;k<VDIM;k++) d[k]=jac[i][0][k]; return glob(d); },[&](const X& x){ lb.evaluateHessian(x,hes); M h; for(int p=0;p<VDIM;p++) for(int q=0;q<VDIM;q++) h[p][q]=hes[i][p][q]; return globH(h); });
    std::vector<double> c; li.interpolate(f,c); CHECK(c.size()==n,"one coefficient per shape function");
    for(size_t j=0;j<n;j++) CHECK_EQ(c[j],i==j?1.0:0.0,"interpolation is dual to the shape functions"); }
#endif
#ifdef VDERIV
  X x; double sum=0; for(int k=0;k<VDIM;k++){ x[k]=symReal("x",0,1); sum+=x[k]; } ASSUME(sum<=1);
  lb.evaluateFunction(x,val); lb.evaluateJacobian(x,jac); lb.evaluateHessian(x,hes); CHECK(val.size()==n && jac.size()==n && hes.size()==n,"one value per shape function");
  const double h=0.5; // difference formulas which are exact for polynomials of degree 6
  for(int k=0;k<VDIM;k++){ std::vector<typename RT::RangeType> p[7]; std::vector<typename RT::JacobianType> d[7];
    for(int s=0;s<7;s++) if(s!=3){ X y=x; y[k]+=(s-3)*h; lb.evaluateFunction(y,p[s]); lb.evaluateJacobian(y,d[s]); }
    auto D=[&](auto f){ return ((f(4)-f(2))*45-(f(5)-f(1))*9+(f(6)-f(0)))/(60*h); };
    for(size_t i=0;i<n;i++){ CHECK_EQ(jac[i][0][k],D([&](int s){ return double(p[s][i]); }),"Jacobian is the derivative of the values");
      for(int q=0;q<VDIM;q++) CHECK_EQ(hes[i][q][k],D([&](int s){ return double(d[s][i][0][q]); }),"Hessian is the derivative of the Jacobian"); } }
  std::vector<typename RT::RangeType> pp; std::array<unsigned,VDIM> o{}; lb.partial(o,x,pp); for(size_t i=0;i<n;i++) CHECK_EQ(double(pp[i]),double(val[i]),"partial of order 0");
  for(int k=0;k<VDIM;k++){ o={}; o[k]=1; lb.partial(o,x,pp); for(size_t i=0;i<n;i++) CHECK_EQ(double(pp[i]),jac[i][0][k],"partial of order 1"); for(int q=0;q<VDIM;q++){ o={}; o[k]++; o[q]++; lb.partial(o,x,pp); for(size_t i=0;i<n;i++) CHECK_EQ(double(pp[i]),hes[i][k][q],"partial of order 2"); } }
#endif
#ifdef VREPRO
  { X x; double sum=0; for(int k=0;k<VDIM;k++){ x[k]=symReal("x",0,1); sum+=x[k]; } ASSUME(sum<=1); lb.evaluateFunction(x,val);
    std::array<int,VDIM> a{}; for(;;){ // all monomials of degree <= VP
      auto pw=[](double t,int k){ double r=1; for(int q=0;q<k;q++) r*=t; return r; };
      auto D=[&](const X& y,std::array<int,VDIM> o){ double r=1; for(int k=0;k<VDIM;k++){ if(o[k]>a[k]) return 0.0; for(int q=0;q<o[k];q++) r*=a[k]-q; r*=pw(y[k],a[k]-o[k]); } return r; };
      auto f=fn([&](const X& y){ return D(y,{}); },[&](const X& y){ X d; for(int k=0;k<VDIM;k++){ std::array<int,VDIM> o{}; o[k]=1; d[k]=D(y,o); } return glob(d); },[&](const X& y){ M h; for(int p=0;p<VDIM;p++) for(int q=0;q<VDIM;q++){ std::array<int,VDIM> o{}; o[p]++; o[q]++; h[p][q]=D(y,o); } return globH(h); });
      std::vector<double> c; li.interpolate(f,c); double s=0; for(size_t i=0;i<n;i++) s+=c[i]*double(val[i]); CHECK_EQ(s,D(x,{}),"polynomials are reproduced");
      int k=0; for(;k<VDIM;k++){ a[k]++; int t=0; for(int q: a) t+=q; if(t<=VP) break; a[k]=0; } if(k==VDIM) break; } }
#endif
  REACH("end");
}
