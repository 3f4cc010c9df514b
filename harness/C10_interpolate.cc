// TITLE: interpolation writes exactly the selected degrees of freedom with the values of their functionals
// BOUNDS: two elements (lines, triangle+quadrilateral, tetrahedra); arbitrary quadratic (vector valued) functions with coefficients in [-1,1], discrete functions with arbitrary coefficients; arbitrary previous coefficients; arbitrary masks of up to 9 degrees of freedom; Lagrange orders 0..3, DG, Raviart-Thomas, cubic Hermite; power, composite, dynamic power, nested and subspace bases; flat and blocked vectors, masks of different type, custom node-to-range maps; empty and wrongly sized vectors
// ASSUME: grid replaced by the mock grid of /verif/harness/mockgrid.hh
// CASE: masks -DVPART=1 -DVDIM=2 -DVMESH=TriQuad
// CASE: masks1d -DVPART=1 -DVDIM=1 -DVMESH=Line2
// CASE: power -DVPART=2 -DVDIM=2 -DVMESH=TriQuad
// CASE: composite -DVPART=3 -DVDIM=2 -DVMESH=TriQuad
// CASE: rt -DVPART=4 -DVDIM=2 -DVMESH=Tri2 -DVSINGLE=1
// CASE: hermite -DVPART=5 -DVDIM=1 -DVMESH=Line2 -DVSINGLE=1
// CASE: hermite2 -DVPART=5 -DVDIM=2 -DVMESH=Tri2 -DVSINGLE=1
// CASE: reproduce -DVPART=6 -DVDIM=2 -DVMESH=TriQuad
// CASE: reproduce3d -DVPART=6 -DVDIM=3 -DVMESH=Tet2
#define VB lagrange
#define VK 1
#include "leafbases.hh"
#include <dune/common/tuplevector.hh>
#include <dune/common/bitsetvector.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/dynamicpowerbasis.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/cubichermitebasis.hh>
#include <dune/functions/functionspacebases/interpolate.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
using namespace Dune; using namespace Dune::Functions; using std::size_t;
using Grd=Mock::Grid<VDIM,VDIM,VSINGLE>; using X=FieldVector<double,VDIM>;
template<class T> struct isTup : std::false_type {}; template<class... T> struct isTup<TupleVector<T...>> : std::true_type {}; template<class... T> struct isTup<MultiTypeBlockVector<T...>> : std::true_type {};
template<class C,class F> void flat(C& c,F&& f){ if constexpr(std::is_arithmetic_v<std::remove_const_t<C>>) f(c); else if constexpr(isTup<std::remove_const_t<C>>::value) Hybrid::forEach(std::make_index_sequence<C::size()>{},[&](auto i){ flat(c[i],f); }); else for(auto& x: c) flat(x,f); }
struct Quad { double a=symReal("a",-1,1), c=symReal("c",-1,1); std::array<double,VDIM> b; Quad(){ for(auto& t: b) t=symReal("b",-1,1); }
  double operator()(const X& x) const { double r=a+c*x[0]*x[VDIM-1]; for(int k=0;k<VDIM;k++) r+=b[k]*x[k]; return r; }
  X grad(const X& x) const { X g; for(int k=0;k<VDIM;k++) g[k]=b[k]; g[0]+=c*x[VDIM-1]; g[VDIM-1]+=c*x[0]; return g; }
  friend auto derivative(const Quad& q){ return [q](const X& x){ return q.grad(x); }; } };
struct Vec { Quad a,b; FieldVector<double,2> operator()(const X& x) const { return {a(x),b(x)}; } friend auto derivative(const Vec& f){ return [f](const X& x){ FieldMatrix<double,2,VDIM> J; J[0]=f.a.grad(x); J[1]=f.b.grad(x); return J; }; } };
// scalar component of f, evaluated in local coordinates of an element, with its (global) gradient
template<class F> struct LocalComponent { F f; Mock::Geometry<VDIM,VDIM> geo; auto operator()(const X& x) const { return f(geo.global(x)); } };
template<class F> struct LocalDiff { F f; Mock::Geometry<VDIM,VDIM> geo; auto operator()(const X& x) const { return f(geo.global(x)); } friend auto derivative(const LocalDiff& l){ return [l](const X& x){ return l.f.grad(l.geo.global(x)); }; } };
// before: copy of the coefficients; comp(treePath) returns the function of global coordinates a leaf interpolates
template<class B,class V,class Acc,class M,class Comp> void verify(const B& b,V& v,const V& before,Acc&& acc,M&& mask,Comp&& comp){
  std::vector<double*> touched; auto lv=b.localView();
  for(auto e: elements(b.gridView())){ lv.bind(e); TypeTree::forEachLeafNode(lv.tree(),[&](const auto& node,const auto& tp){ const auto& fe=node.finiteElement(); std::vector<double> out; auto f=comp(tp); if constexpr(requires{ f.grad(X()); }) fe.localInterpolation().interpolate(LocalDiff<decltype(f)>{f,e.geometry()},out); else fe.localInterpolation().interpolate(LocalComponent<decltype(f)>{f,e.geometry()},out);
      CHECK(out.size()==node.size(),"one functional per degree of freedom");
      for(size_t i=0;i<node.size();i++){ auto mi=lv.index(node.localIndex(i)); double& x=acc(v,mi); if(mask(mi)){ CHECK_EQ(x,out[i],"selected coefficients are the values of the functionals"); touched.push_back(&x); } } }); }
  std::vector<double> old; flat(before,[&](double x){ old.push_back(x); }); size_t k=0; CHECK(true,""); size_t n=0; flat(v,[&](double&){ n++; }); CHECK(n==old.size(),"the vector keeps its size"); if(n!=old.size()) return;
  flat(v,[&](double& x){ bool t=false; for(auto p: touched) t|= p==&x; if(!t) CHECK_EQ(x,old[k],"unselected coefficients are unchanged"); k++; }); }
auto acc=[](auto& v,const auto& mi)->double&{ return istlVectorBackend(v)[mi]; };
auto all=[](const auto&){ return true; };
template<class C> void randomize(C& c){ flat(c,[&](double& x){ x=symReal("coefficient",-1,1); }); }
extern "C" void harness(){
  Grd g; Mock::addMesh(g,Mock::VMESH,0); g.finalize(); auto gv=g.leafGridView(); using namespace BasisFactory; using namespace Indices;
#if VPART==1
  Quad q; auto f=[q](const X& x){ return q(x); };
  auto run=[&](const auto& b,auto v){ istlVectorBackend(v).resize(b); randomize(v); auto old=v; size_t n=b.size();
    switch(symPick("mask",0,5)){
      case 0: { std::vector<char> m(n); for(auto& t: m) t=symInt("m",0,1); interpolate(b,v,f,m); verify(b,v,old,acc,[&](const auto& mi){ return m[mi[0]]!=0; },[&](const auto&){ return f; }); break; }
      case 1: { std::vector<bool> m(n); for(size_t i=0;i<n;i++) m[i]=symBool("m"); interpolate(b,v,f,m); verify(b,v,old,acc,[&](const auto& mi){ return bool(m[mi[0]]); },[&](const auto&){ return f; }); break; }
      case 2: { interpolate(b,v,f); verify(b,v,old,acc,all,[&](const auto&){ return f; }); break; }
      case 3: { decltype(v) w; interpolate(b,w,q); verify(b,w,decltype(w)(w.size(),0),acc,all,[&](const auto&){ return f; }); CHECK(w.size()==n,"an empty vector gets the size of the basis"); break; }
      case 4: { decltype(v) w(n+2); w=decltype(w)(n+2,7.0); auto back=istlVectorBackend(w); interpolate(b,back,makeAnalyticGridViewFunction(f,gv)); CHECK(w.size()==n,"the vector gets the size of the basis"); verify(b,w,decltype(w)(n,0),acc,all,[&](const auto&){ return f; }); break; }
      case 5: { std::vector<char> m(n,0); size_t k=symInt("k",0,n-1); m[k]=1; interpolate(b,v,f,m); verify(b,v,old,acc,[&](const auto& mi){ return mi[0]==k; },[&](const auto&){ return f; }); break; } } };
  switch(symPick("basis",0,3)){ case 0: run(makeBasis(gv,lagrange<1>()),std::vector<double>()); break; case 1: run(makeBasis(gv,lagrange<0>()),std::vector<double>()); break; case 2: run(makeBasis(gv,lagrange(VDIM==1?4:1)),std::vector<double>()); break; case 3: run(makeBasis(gv,lagrangeDG<1>()),std::vector<double>()); break; }
#elif VPART==2
  Quad q0,q1; auto f=[q0,q1](const X& x){ return FieldVector<double,2>{q0(x),q1(x)}; };  auto comp=[&](const auto& tp){ size_t i=tp[tp.size()-1]; return [i,q0,q1](const X& x){ return i==0?q0(x):q1(x); }; };
  switch(symPick("basis",0,6)){
    case 0: { auto b=makeBasis(gv,power<2>(lagrange<1>(),blockedInterleaved())); std::vector<FieldVector<double,2>> v(b.size()); randomize(v); auto old=v; std::vector<std::array<char,2>> m(b.size()); size_t k=symInt("k",0,b.size()-1),c=symInt("c",0,1); for(auto& t: m) t={char(c==0),char(c==1)}; m[k]={1,1}; interpolate(b,v,f,m); verify(b,v,old,acc,[&](const auto& mi){ return mi[0]==k || mi[1]==c; },comp); break; }
    case 1: { auto b=makeBasis(gv,power<2>(lagrange<2>(),flatInterleaved())); std::vector<double> v(b.size()); randomize(v); auto old=v; interpolate(b,v,f); verify(b,v,old,acc,all,comp); break; }
    case 2: { auto b=makeBasis(gv,power<2>(lagrange<1>(),blockedLexicographic())); std::vector<std::vector<double>> v(2,std::vector<double>(b.size({0}))); randomize(v); auto old=v; std::vector<std::vector<char>> m(2,std::vector<char>(b.size({0}),0)); size_t c=symInt("c",0,1),k=symInt("k",0,4); m[c][k]=1; interpolate(b,v,f,m); verify(b,v,old,acc,[&](const auto& mi){ return mi[0]==c && mi[1]==k; },comp); break; }
    case 3: { auto b=makeBasis(gv,power(lagrange<1>(),2,flatLexicographic())); std::vector<double> v(b.size()); randomize(v); auto old=v; interpolate(b,v,f); verify(b,v,old,acc,all,comp); break; }
    case 4: { // custom node-to-range map: components exchanged
      auto b=makeBasis(gv,power<2>(lagrange<1>(),flatInterleaved())); std::vector<double> v(b.size()); randomize(v); auto old=v; std::vector<char> m(b.size(),1); size_t k=symInt("k",0,b.size()-1); m[k]=0; interpolate(b,v,f,m,[](const auto&,const auto& tp,auto&& y){ return y[1-tp[0]]; }); verify(b,v,old,acc,[&](const auto& mi){ return mi[0]!=k; },[&](const auto& tp){ size_t i=1-tp[0]; return [i,q0,q1](const X& x){ return i==0?q0(x):q1(x); }; }); break; }
    case 5: { // subspace: one component of a power basis only
      auto b=makeBasis(gv,power<2>(lagrange<2>(),blockedInterleaved())); BlockVector<FieldVector<double,2>> v(b.size()); randomize(v); auto old=v; size_t i=symPick("component",0,1); auto s=subspaceBasis(b,i); interpolate(s,v,q0); verify(s,v,old,acc,all,[&](const auto&){ return [q0](const X& x){ return q0(x); }; }); break; }
    case 6: { // the same scalar function for all components via a range without index access
      auto b=makeBasis(gv,power<2>(lagrange<1>(),flatLexicographic())); std::vector<double> v(b.size()); randomize(v); auto old=v; interpolate(b,v,q0); verify(b,v,old,acc,all,[&](const auto&){ return [q0](const X& x){ return q0(x); }; }); break; } }
#elif VPART==3
  Quad q0,q1,q2; auto b=makeBasis(gv,composite(power<2>(lagrange<2>(),blockedInterleaved()),lagrange<1>(),blockedLexicographic())); using V=MultiTypeBlockVector<BlockVector<FieldVector<double,2>>,BlockVector<FieldVector<double,1>>>; V v; istlVectorBackend(v).resize(b); randomize(v); V old=v;
  auto scal=[](const Quad& q){ return [q](const X& x){ return q(x); }; };
  switch(symPick("basis",0,4)){
    case 0: { auto f=[=](const X& x){ TupleVector<FieldVector<double,2>,double> y; y[_0][0]=q0(x); y[_0][1]=q1(x); y[_1]=q2(x); return y; }; interpolate(b,v,f); verify(b,v,old,acc,all,[&](const auto& tp){ return scal(size_t(tp[_0])==1?q2: tp.size()>1 && size_t(tp[tp.size()-1])==1 ? q1 : q0); }); break; }
    case 1: { auto s=subspaceBasis(b,_0); auto f=[=](const X& x){ return FieldVector<double,2>{q0(x),q1(x)}; }; interpolate(s,v,f); verify(s,v,old,acc,all,[&](const auto& tp){ return scal(tp[0]==0?q0:q1); }); break; }
    case 2: { auto s=subspaceBasis(b,_1); interpolate(s,v,q2); verify(s,v,old,acc,all,[&](const auto&){ return scal(q2); }); break; }
    case 3: { auto s=subspaceBasis(b,_0,1); MultiTypeBlockVector<BlockVector<FieldVector<char,2>>,BlockVector<FieldVector<char,1>>> m; m[_0].resize(v[_0].size()); m[_1].resize(v[_1].size()); for(auto& t: m[_0]) t=0; for(auto& t: m[_1]) t=1; size_t k=symInt("k",0,v[_0].size()-1); m[_0][k]=1; interpolate(s,v,q1,m); verify(s,v,old,acc,[&](const auto& mi){ return mi[1]==k; },[&](const auto&){ return scal(q1); }); break; }
    case 4: { std::vector<double> w(b.size({1})); randomize(w); auto p=makeBasis(gv,lagrange<1>()); auto d=makeDiscreteGlobalBasisFunction<double>(p,w); auto s=subspaceBasis(b,_1); interpolate(s,v,d); for(size_t i=0;i<w.size();i++) CHECK_EQ(v[_1][i][0],w[i],"interpolating a discrete function of the same space reproduces its coefficients"); verify(s,v,old,acc,all,[&](const auto&){ return d; }); break; } }
#elif VPART==4
  auto b=makeBasis(gv,raviartThomas<0>()); Quad q0,q1; auto f=[q0,q1](const X& x){ return FieldVector<double,2>{q0(x),q1(x)}; }; std::vector<double> v(b.size()); randomize(v); auto old=v; std::vector<char> m(b.size()); for(auto& t: m) t=symInt("m",0,1); interpolate(b,v,f,m); verify(b,v,old,acc,[&](const auto& mi){ return m[mi[0]]!=0; },[&](const auto&){ return f; });
  std::vector<double> c(b.size()); randomize(c); auto d=makeDiscreteGlobalBasisFunction<FieldVector<double,2>>(b,c); std::vector<double> w; interpolate(b,w,d); for(size_t i=0;i<c.size();i++) CHECK_EQ(w[i],c[i],"interpolating a discrete function of the same space reproduces its coefficients");
#elif VPART==5
  // functionals with derivatives: the derivative of the function is used, and only there
  auto b=makeBasis(gv,cubicHermite()); Quad q; std::vector<double> v(b.size()); randomize(v); auto old=v; size_t k=symPick("k",0,b.size()-1); std::vector<char> m(b.size(),1); m[k]=0; interpolate(b,v,q,m); verify(b,v,old,acc,[&](const auto& mi){ return mi[0]!=k; },[&](const auto&){ return q; });
  std::vector<double> c(b.size()); randomize(c); auto d=makeDiscreteGlobalBasisFunction<double>(b,c); std::vector<double> w; interpolate(b,w,d); for(size_t i=0;i<c.size();i++) CHECK_EQ(w[i],c[i],"interpolating a discrete function of the same space reproduces its coefficients");
  auto p=makeBasis(gv,power<2>(cubicHermite(),blockedInterleaved())); Quad r;
  std::vector<FieldVector<double,2>> pv(p.size()); auto pold=pv; interpolate(p,pv,Vec{q,r}); verify(p,pv,pold,acc,all,[&](const auto& tp){ return tp[0]==0?q:r; });
#else
  // functions of the discrete space are reproduced
  auto run=[&](const auto& b,auto v,auto zero){ using R=decltype(zero); istlVectorBackend(v).resize(b); auto w=v; randomize(v); auto d=makeDiscreteGlobalBasisFunction<R>(b,v); interpolate(b,w,d); std::vector<double> a; flat(v,[&](double x){ a.push_back(x); }); size_t k=0; flat(w,[&](double x){ CHECK_EQ(x,a[k],"interpolating a discrete function of the same space reproduces its coefficients"); k++; }); CHECK(k==a.size(),"size"); };
  switch(symPick("basis",0,6)){
    case 0: run(makeBasis(gv,lagrange<1>()),std::vector<double>(),double()); break;
    case 1: run(makeBasis(gv,lagrange<2>()),std::vector<double>(),double()); break;
    case 2: run(makeBasis(gv,lagrange(VDIM==3?2:3)),std::vector<double>(),double()); break;
    case 3: run(makeBasis(gv,lagrangeDG<2>()),std::vector<double>(),double()); break;
    case 4: run(makeBasis(gv,lagrange<0>()),std::vector<double>(),double()); break;
    case 5: run(makeBasis(gv,power<2>(lagrange<1>(),blockedInterleaved())),BlockVector<FieldVector<double,2>>(),FieldVector<double,2>()); break;
    case 6: run(makeBasis(gv,composite(power<2>(lagrange<2>(),blockedInterleaved()),lagrange<1>(),blockedLexicographic())),MultiTypeBlockVector<BlockVector<FieldVector<double,2>>,BlockVector<FieldVector<double,1>>>(),TupleVector<FieldVector<double,2>,double>()); break; }
#endif
  REACH("end");
}
