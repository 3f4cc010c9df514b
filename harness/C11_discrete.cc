// TITLE: discrete functions and their derivatives equal the linear combination of the basis functions
// BOUNDS: two elements (triangles, quadrilaterals, triangle+quadrilateral, tetrahedra, lines); arbitrary coefficients in [-1,1], arbitrary local point in [0,1]^d, arbitrary vertex coordinates of the bound element (within +-1/4 of a reference shape); scalar, power, composite, subspace, dynamic-power, vector-valued (Raviart-Thomas) and implicit product spaces, flat and blocked coefficients, owned and referenced coefficients, custom node-to-range maps; global evaluation at arbitrary points of a fixed mesh; histories of up to 3 (thorough 4) operations bind/unbind/copy/move/assign/coefficient change on two local functions
// ASSUME: grid replaced by the mock grid of /verif/harness/mockgrid.hh
// CASE: scalar -DVPART=1 -DVDIM=2 -DVMESH=TriQuad
// CASE: scalar1d -DVPART=1 -DVDIM=1 -DVMESH=Line2
// CASE: scalar3d -DVPART=1 -DVDIM=3 -DVMESH=Tet2 -DVFIXED
// CASE: power -DVPART=2 -DVDIM=2 -DVMESH=TriQuad
// CASE: composite -DVPART=3 -DVDIM=2 -DVMESH=TriQuad
// CASE: vectorvalued -DVPART=4 -DVDIM=2 -DVMESH=Tri2 -DVSINGLE=1
// CASE: owning -DVPART=5 -DVDIM=2 -DVMESH=Tri2
// CASE: global -DVPART=6 -DVDIM=2 -DVMESH=TriQuad -DVFIXED
// CASE: history -DVPART=7 -DVDIM=1 -DVMESH=Line2 -DVFIXED
// CASE: history_derivative -DVPART=8 -DVDIM=1 -DVMESH=Line2 -DVFIXED
#define VB lagrange
#define VK 1
#include "leafbases.hh"
#include <dune/common/tuplevector.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/dynamicpowerbasis.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/taylorhoodbasis.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
#include <dune/functions/gridfunctions/gridviewfunction.hh>
using namespace Dune; using namespace Dune::Functions; using std::size_t;
using Grd=Mock::Grid<VDIM,VDIM,VSINGLE>; using X=FieldVector<double,VDIM>;
template<class T> struct isTup : std::false_type {}; template<class... T> struct isTup<TupleVector<T...>> : std::true_type {}; template<class... T> struct isTup<MultiTypeBlockVector<T...>> : std::true_type {};
template<class C,class F> void flat(C& c,F&& f){ if constexpr(std::is_arithmetic_v<std::remove_const_t<C>>) f(c); else if constexpr(isTup<std::remove_const_t<C>>::value) Hybrid::forEach(std::make_index_sequence<C::size()>{},[&](auto i){ flat(c[i],f); }); else for(auto& x: c) flat(x,f); }
template<class C> std::vector<double> flattened(const C& c){ std::vector<double> r; flat(c,[&](double x){ r.push_back(x); }); return r; }
template<class C> void randomize(C& c){ flat(c,[&](double& x){ x=symReal("coefficient",-1,1); }); }
// definition: blocks of dim_C x dim_V values (or Jacobian rows) per leaf, leaves in tree order
template<class LV,class Co> std::vector<double> expected(const LV& lv,Co&& coeff,const X& x,bool derivative){
  std::vector<double> y; auto Ji=lv.element().geometry().jacobianInverse(x);
  TypeTree::forEachLeafNode(lv.tree(),[&](const auto& node,const auto&){ const auto& fe=node.finiteElement(); using LB=typename std::decay_t<decltype(fe)>::Traits::LocalBasisType::Traits; constexpr int dr=LB::dimRange;
    std::vector<typename LB::RangeType> v; std::vector<typename LB::JacobianType> J; if(derivative) fe.localBasis().evaluateJacobian(x,J); else fe.localBasis().evaluateFunction(x,v);
    size_t base=y.size(); size_t dc=0;
    for(size_t i=0;i<fe.size();i++){ auto c=flattened(coeff(lv.index(node.localIndex(i)))); if(i==0){ dc=c.size(); y.resize(base+dc*dr*(derivative?VDIM:1),0.0); }
      for(size_t j=0;j<dc;j++) for(int k=0;k<dr;k++){ if(!derivative) y[base+j*dr+k]+=c[j]*v[i][k]; else for(int l=0;l<VDIM;l++) for(int m=0;m<VDIM;m++) y[base+(j*dr+k)*VDIM+l]+=c[j]*J[i][k][m]*Ji[m][l]; } } });
  return y; }
inline void same(const std::vector<double>& a,const std::vector<double>& b,bool derivative){ CHECK(a.size()==b.size(),"number of range components"); if(derivative) for(size_t i=0;i<a.size();i++) CHECK_EQ(a[i],b[i],"derivative is the combination of the global gradients"); else for(size_t i=0;i<a.size();i++) CHECK_EQ(a[i],b[i],"value is the linear combination of the shape functions"); }
inline X point(const char* n){ X x; for(int k=0;k<VDIM;k++) x[k]=symReal(n,0,1); return x; }
template<bool deriv,class F,class B,class Co> void evaluate(const Grd& g,const F& f,const B& b,Co&& coeff){
  auto e=g.entity(symPick("element",0,1)); auto lv=b.localView(); lv.bind(e); auto x=point("x");
  auto lf=localFunction(f); lf.bind(e); CHECK(lf.bound() && lf.localContext()==e,"localContext() is the bound element"); same(flattened(lf(x)),expected(lv,coeff,x,false),false);
  auto y=point("y"); same(flattened(lf(y)),expected(lv,coeff,y,false),false); same(flattened(lf(x)),expected(lv,coeff,x,false),false);
  if constexpr(deriv){ auto df=derivative(f); auto ld=localFunction(df); ld.bind(e); same(flattened(ld(x)),expected(lv,coeff,x,true),true); auto ld2=derivative(lf); CHECK(ld2.bound() && ld2.localContext()==e,"the derivative of a bound local function is bound to the same element"); same(flattened(ld2(x)),expected(lv,coeff,x,true),true);
    auto o=g.entity(1-e.e_); ld2.bind(o); lv.bind(o); same(flattened(ld2(x)),expected(lv,coeff,x,true),true); } }
template<class B,class V> auto access(const B&,V& v){ return [&v](const auto& mi)->decltype(auto){ if constexpr(requires{ v[mi]; }) return v[mi]; else return istlVectorBackend(v)[mi]; }; }
extern "C" void harness(){
  Grd g; Mock::addMesh(g,Mock::VMESH,0);
#ifndef VFIXED
  for(auto& p: g.x) for(int k=0;k<VDIM;k++) p[k]+=symReal("move",-0.25,0.25);
#endif
  g.finalize(); auto gv=g.leafGridView(); using namespace BasisFactory; namespace BF=BasisFactory;
#if VPART==1
  switch(symPick("basis",0,4)){
    case 0: { auto b=makeBasis(gv,lagrange<1>()); std::vector<double> v(b.dimension()); randomize(v); evaluate<true>(g,makeDiscreteGlobalBasisFunction<double>(b,v),b,access(b,v)); break; }
    case 1: { auto b=makeBasis(gv,lagrange(2)); BlockVector<FieldVector<double,1>> v(b.dimension()); randomize(v); evaluate<true>(g,makeDiscreteGlobalBasisFunction<FieldVector<double,1>>(b,v),b,access(b,v)); break; }
    case 2: { auto b=makeBasis(gv,lagrangeDG<2>()); std::vector<double> v(b.dimension()); randomize(v); evaluate<true>(g,makeDiscreteGlobalBasisFunction<double>(b,v),b,access(b,v)); break; }
    case 3: { auto b=makeBasis(gv,lagrange<0>()); std::vector<double> v(b.dimension()); randomize(v); evaluate<true>(g,makeDiscreteGlobalBasisFunction<double>(b,v),b,access(b,v)); break; }
    case 4: { auto b=makeBasis(gv,lagrange<1>()); std::vector<FieldVector<double,3>> v(b.dimension()); randomize(v); evaluate<true>(g,makeDiscreteGlobalBasisFunction<FieldVector<double,3>>(b,v),b,access(b,v)); break; } }
#elif VPART==2
  switch(symPick("basis",0,5)){
    case 0: { auto b=makeBasis(gv,power<2>(lagrange<1>(),blockedInterleaved())); std::vector<FieldVector<double,2>> v(b.size()); randomize(v); evaluate<true>(g,makeDiscreteGlobalBasisFunction<FieldVector<double,2>>(b,v),b,access(b,v)); break; }
    case 1: { auto b=makeBasis(gv,power<2>(lagrange<2>(),flatInterleaved())); std::vector<double> v(b.size()); randomize(v); evaluate<true>(g,makeDiscreteGlobalBasisFunction<FieldVector<double,2>>(b,v),b,access(b,v)); break; }
    case 2: { auto b=makeBasis(gv,power<3>(lagrange<1>(),blockedLexicographic())); std::vector<std::vector<double>> v(3,std::vector<double>(b.size({0}))); randomize(v); evaluate<true>(g,makeDiscreteGlobalBasisFunction<FieldVector<double,3>>(b,v),b,access(b,v)); break; }
    case 3: { auto b=makeBasis(gv,power(lagrange<1>(),2,flatLexicographic())); std::vector<double> v(b.size()); randomize(v); evaluate<true>(g,makeDiscreteGlobalBasisFunction<FieldVector<double,2>>(b,v),b,access(b,v)); break; }
    case 4: { auto b=makeBasis(gv,power<2>(power<2>(lagrange<1>(),blockedInterleaved()),blockedLexicographic())); std::vector<std::vector<FieldVector<double,2>>> v(2,std::vector<FieldVector<double,2>>(b.size({0}))); randomize(v); evaluate<false>(g,makeDiscreteGlobalBasisFunction<std::array<FieldVector<double,2>,2>>(b,v),b,access(b,v)); break; }
    case 5: { // custom map: components reversed; implicit product of dimension 2 in every leaf
      auto b=makeBasis(gv,power<2>(lagrange<1>(),flatInterleaved())); std::vector<FieldVector<double,2>> v(b.size()); randomize(v); auto map=[](const auto&,const auto& tp,auto& y)->auto&{ return y[1-tp[0]]; }; using R=std::array<FieldVector<double,2>,2>; using V=decltype(v);
      DiscreteGlobalBasisFunction<decltype(b),V,decltype(map),R> f(b,v,map); auto lf=localFunction(f); auto e=g.entity(symPick("element",0,1)); auto lv=b.localView(); lv.bind(e); lf.bind(e); auto x=point("x"); auto r=lf(x); std::swap(r[0],r[1]); same(flattened(r),expected(lv,access(b,v),x,false),false); break; } }
#elif VPART==3
  auto mk=[&]{ return makeBasis(gv,composite(power<2>(lagrange<2>(),blockedInterleaved()),lagrange<1>(),blockedLexicographic())); }; auto b=mk(); using B=decltype(b);
  MultiTypeBlockVector<BlockVector<FieldVector<double,2>>,BlockVector<FieldVector<double,1>>> v; istlVectorBackend(v).resize(b); randomize(v); using namespace Indices;
  switch(symPick("basis",0,4)){
    case 0: evaluate<false>(g,makeDiscreteGlobalBasisFunction<TupleVector<FieldVector<double,2>,double>>(b,v),b,access(b,v)); break;
    case 1: { auto s=subspaceBasis(b,_0); evaluate<true>(g,makeDiscreteGlobalBasisFunction<FieldVector<double,2>>(s,v),s,access(b,v)); break; }
    case 2: { auto s=subspaceBasis(b,_1); evaluate<true>(g,makeDiscreteGlobalBasisFunction<double>(s,v),s,access(b,v)); break; }
    case 3: { auto s=subspaceBasis(b,_0,1); evaluate<true>(g,makeDiscreteGlobalBasisFunction<double>(s,v),s,access(b,v)); break; }
    case 4: { auto t=makeBasis(gv,taylorHood()); MultiTypeBlockVector<BlockVector<FieldVector<double,2>>,BlockVector<FieldVector<double,1>>> w; istlVectorBackend(w).resize(t); randomize(w); auto s=subspaceBasis(t,_0); evaluate<true>(g,makeDiscreteGlobalBasisFunction<FieldVector<double,2>>(s,w),s,access(t,w)); break; } }
#elif VPART==4
  switch(symPick("basis",0,1)){
    case 0: { auto b=makeBasis(gv,raviartThomas<0>()); std::vector<double> v(b.size()); randomize(v); evaluate<true>(g,makeDiscreteGlobalBasisFunction<FieldVector<double,2>>(b,v),b,access(b,v)); break; }
    case 1: { auto b=makeBasis(gv,composite(raviartThomas<0>(),lagrange<0>(),blockedLexicographic())); std::vector<std::vector<double>> v(2); istlVectorBackend(v).resize(b); randomize(v); evaluate<false>(g,makeDiscreteGlobalBasisFunction<TupleVector<FieldVector<double,2>,double>>(b,v),b,access(b,v)); break; } }
#elif VPART==5
  // owned and referenced coefficients and bases
  auto run=[&](const auto& b,auto v,auto zero){ using V=decltype(v); using R=decltype(zero); randomize(v); const V orig=v; auto e=g.entity(symPick("element",0,1)); auto x=point("x"); auto lv=b.localView(); lv.bind(e);
    auto ref=[&](const auto& lf,const V& c){ same(flattened(lf(x)),expected(lv,access(b,c),x,false),false); };
    int how=symPick("how",0,4);
    if(how==0){ auto f=makeDiscreteGlobalBasisFunction<R>(b,v); auto lf=localFunction(f); lf.bind(e); ref(lf,orig); V w=v; randomize(w); v=w; lf.bind(e); ref(lf,w); auto f2=f; auto l2=localFunction(f2); l2.bind(e); ref(l2,w); CHECK(&f.basis()==&b,"basis() is the referenced basis"); }
    else if(how==1){ auto f=makeDiscreteGlobalBasisFunction<R>(b,std::move(v)); v=V(); auto lf=localFunction(f); lf.bind(e); ref(lf,orig); auto f2=f; auto l2=localFunction(f2); l2.bind(e); ref(l2,orig); }
    else if(how==2){ auto f=[&]{ V t=orig; auto c=b; return makeDiscreteGlobalBasisFunction<R>(std::move(c),std::move(t)); }(); auto lf=localFunction(f); lf.bind(e); ref(lf,orig); randomize(v); ref(lf,orig); CHECK(&f.basis()!=&b,"the function owns its basis"); }
    else if(how==3){ auto lf=[&]{ auto f=makeDiscreteGlobalBasisFunction<R>(b,v); return localFunction(f); }(); lf.bind(e); ref(lf,orig); }
    else { auto f=makeDiscreteGlobalBasisFunction<R>(b,V(orig)); GridViewFunction<R(X),decltype(gv)> erased=f; auto copy=erased; auto lf=localFunction(copy); lf.bind(e); ref(lf,orig); auto l2=lf; l2.unbind(); ref(lf,orig); } };
  switch(symPick("basis",0,2)){
    case 0: { auto b=makeBasis(gv,lagrange<1>()); run(b,std::vector<double>(b.size()),double()); break; }
    case 1: { auto b=makeBasis(gv,power<2>(lagrange<1>(),blockedInterleaved())); run(b,BlockVector<FieldVector<double,2>>(b.size()),FieldVector<double,2>()); break; }
    case 2: { auto b=makeBasis(gv,power<2>(lagrange<1>(),blockedLexicographic())); run(b,std::vector<std::vector<double>>(2,std::vector<double>(4)),FieldVector<double,2>()); break; } }
#elif VPART==6
  auto b=makeBasis(gv,lagrange<1>()); std::vector<double> v(b.size()); randomize(v); auto f=makeDiscreteGlobalBasisFunction<double>(b,v); auto df=derivative(f); auto e=g.entity(symPick("element",0,1)); auto lv=b.localView(); lv.bind(e); X x=point("x"); double s=0; for(double t: x) s+=t;
  if(e.type().isSimplex()) ASSUME(s<=0.99); for(double t: x) ASSUME(t>=0.01 && t<=0.99);
  auto y=e.geometry().global(x); same(flattened(f(y)),expected(lv,access(b,v),x,false),false); same(flattened(df(y)),expected(lv,access(b,v),x,true),true);
#else
  // histories: two functions of the same type, two local functions
  auto b=makeBasis(gv,lagrange<1>()); std::vector<double> c[2]; for(auto& v: c){ v.resize(b.size()); randomize(v); }
  auto F0=makeDiscreteGlobalBasisFunction<double>(b,c[0]),F1=makeDiscreteGlobalBasisFunction<double>(b,c[1]);
#if VPART==7
  auto& f0=F0; auto& f1=F1; constexpr bool der=false;
#else
  auto f0=derivative(F0),f1=derivative(F1); constexpr bool der=true;
#endif
  using L=decltype(localFunction(f0)); struct State { L lf; int f,e; std::vector<double> coeff; }; // model: which function, which element (-1: none), coefficients at the time of binding
  std::vector<State> s; s.reserve(8); s.push_back({localFunction(f0),0,-1,{}}); s.push_back({localFunction(f1),1,-1,{}});
  auto bindTo=[&](State& t,int e){ t.lf.bind(g.entity(e)); t.e=e; t.coeff=c[t.f]; };
  bindTo(s[0],symPick("element",0,1));
  for(int step=0;step<3+VERIF_THOROUGH;step++){
    size_t a=symPick("a",0,1),o=1-a;
    switch(symPick("op",0,7)){
      case 0: bindTo(s[a],0); break; case 1: bindTo(s[a],1); break;
      case 2: s[a].lf.unbind(); s[a].e=-1; break;
      case 3: s[a].lf=s[o].lf; s[a].f=s[o].f; s[a].e=s[o].e; s[a].coeff=s[o].coeff; break;
      case 4: { L copy(s[o].lf); s[o].lf.unbind(); s[a].lf=copy; s[a].f=s[o].f; s[a].e=s[o].e; s[a].coeff=s[o].coeff; s[o].e=-1; break; }
      case 5: { L copy(std::move(s[a].lf)); s[a].lf=std::move(copy); break; }
      case 6: { auto& self=s[a].lf; s[a].lf=self; break; }
      case 7: { int k=symPick("changed",0,1); double d=symReal("delta",-1,1); c[k][1]+=d; break; } }
    for(auto& t: s){ CHECK(t.lf.bound()==(t.e>=0),"bound() reports whether an element is bound"); if(t.e>=0){ CHECK(t.lf.localContext()==g.entity(t.e),"localContext() is the bound element"); auto lv=b.localView(); lv.bind(g.entity(t.e)); X x(0.25); same(flattened(t.lf(x)),expected(lv,access(b,t.coeff),x,der),der); } } }
#endif
  REACH("end");
}
