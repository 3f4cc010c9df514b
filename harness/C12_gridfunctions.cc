// TITLE: analytic, composed, coarse-on-fine, fine-on-coarse and face normal functions agree with their definition
// BOUNDS: arbitrary functions out of parametrised families (polynomials with arbitrary coefficients, discontinuous P1 functions with arbitrary coefficients), arbitrary local point in [0,1]^d, arbitrary vertex coordinates where stated; one and two levels of refinement of lines and triangles (fine-on-coarse on triangles: one; thorough two) with arbitrary orientation of the first child, locally refined grids; all element types for face normals; histories of up to 3 (type-erased, derivative and normal: 2; thorough one more) bind/unbind/copy/move/assign operations on two local functions
// ASSUME: grid replaced by the mock grid of /verif/harness/mockgrid.hh
// ASSUME: the local functions of composed, coarse-on-fine and fine-on-coarse functions are used while the global function exists
// CASE: analytic2 -DVPART=1 -DVDIM=2 -DVMESH=TriQuad
// CASE: analytic3 -DVPART=1 -DVDIM=3 -DVMESH=HexPrism
// CASE: composed -DVPART=2 -DVDIM=2 -DVMESH=TriQuad
// CASE: coarse1 -DVPART=3 -DVDIM=1
// CASE: coarse2 -DVPART=3 -DVDIM=2
// CASE: fine1 -DVPART=4 -DVDIM=1
// CASE: fine2 -DVPART=4 -DVDIM=2
// CASE: distance -DVPART=5 -DVDIM=3
// CASE: normal2 -DVPART=6 -DVDIM=2 -DVMESHES=Tri1,Quad1
// CASE: normal3 -DVPART=6 -DVDIM=3 -DVMESHES=Tet1,Hex1,Prism1,Pyr1
// CASE: ancestor -DVPART=7 -DVDIM=1
// CASE: history_analytic -DVPART=8 -DVDIM=1 -DVSTEPS=3
// CASE: history_analytic_derivative -DVPART=9 -DVDIM=1 -DVSTEPS=2
// CASE: history_erased -DVPART=10 -DVDIM=1 -DVSTEPS=2
// CASE: history_normal -DVPART=11 -DVDIM=2 -DVSTEPS=2
// CASE: copies -DVPART=12 -DVDIM=1
#include <config.h>
#ifndef VSTEPS
#define VSTEPS 2
#endif
#include "sym.h"
#include "mockgrid.hh"
#include "meshes.hh"
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/gridfunctions/analyticgridviewfunction.hh>
#include <dune/functions/gridfunctions/composedgridfunction.hh>
#include <dune/functions/gridfunctions/coarsefunctiononfinegridview.hh>
#include <dune/functions/gridfunctions/finefunctiononcoarsegridview.hh>
#include <dune/functions/gridfunctions/facenormalgridfunction.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
#include <dune/functions/gridfunctions/gridviewfunction.hh>
#include <dune/functions/common/differentiablefunctionfromcallables.hh>
#include <dune/functions/common/geometryinancestor.hh>
using namespace Dune; using namespace Dune::Functions; using std::size_t;
using Grd=Mock::Grid<VDIM,VDIM,0>; using GV=Grd::LeafGridView; using X=FieldVector<double,VDIM>; using E=GV::Codim<0>::Entity;
inline X point(const char* n,double lo=0,double hi=1){ X x; for(int k=0;k<VDIM;k++) x[k]=symReal(n,lo,hi); return x; }
// quadratic function a + b x + c x_0 x_last with known derivative
struct Quad { double a=symReal("a",-1,1), c=symReal("c",-1,1); std::array<double,VDIM> b; Quad(){ for(auto& t: b) t=symReal("b",-1,1); }
  double operator()(const X& x) const { double r=a+c*x[0]*x[VDIM-1]; for(int k=0;k<VDIM;k++) r+=b[k]*x[k]; return r; }
  X grad(const X& x) const { X g; for(int k=0;k<VDIM;k++) g[k]=b[k]; g[0]+=c*x[VDIM-1]; g[VDIM-1]+=c*x[0]; return g; }
  friend auto derivative(const Quad& q){ return [q](const X& x){ return q.grad(x); }; } };
inline void vec(const X& a,const X& b){ for(int k=0;k<VDIM;k++) CHECK_EQ(a[k],b[k],"derivative value"); }
// refined meshes: returns number of elements; children's embedding into their father
inline void children(Grd& g,int f){
  auto mid=[&](int a,int b){ X m=g.x[a]; m+=g.x[b]; m*=0.5; for(size_t i=0;i<g.x.size();i++){ bool eq=true; for(int k=0;k<VDIM;k++) eq&= g.x[i][k]==m[k]; if(eq) return int(i); } return g.vertex(m); };
  auto v=g.el[f].v;
  auto add=[&](GeometryType gt,std::vector<int> w,std::vector<X> in,bool sym){ unsigned c= sym? symPick("childOrientation",0,Mock::nOrient(gt)-1):0; std::vector<int> id(w.size()); for(size_t i=0;i<w.size();i++) id[i]=i; auto p=Mock::orient(gt,id,c); std::vector<int> ww; std::vector<X> ii; for(int q: p){ ww.push_back(w[q]); ii.push_back(in[q]); } g.child(f,gt,ww,ii); };
#if VDIM==1
  int m=mid(v[0],v[1]); add(GeometryTypes::line,{v[0],m},{X(0.),X(.5)},true); add(GeometryTypes::line,{m,v[1]},{X(.5),X(1.)},false);
#elif VDIM==2
  int a=mid(v[0],v[1]),b=mid(v[1],v[2]),c=mid(v[0],v[2]); auto T=GeometryTypes::triangle;
  add(T,{v[0],a,c},{X{0,0},X{.5,0},X{0,.5}},g.el[f].level==0); add(T,{a,v[1],b},{X{.5,0},X{1,0},X{.5,.5}},false); add(T,{c,b,v[2]},{X{0,.5},X{.5,.5},X{0,1}},false); add(T,{a,b,c},{X{.5,0},X{.5,.5},X{0,.5}},false);
#endif
}
inline void refined(Grd& g,int levels){
#if VDIM==1
  g.vertex(X(0.)); g.vertex(X(4.)); g.vertex(X(6.)); g.element(GeometryTypes::line,{0,1}); g.element(GeometryTypes::line,{1,2});
#elif VDIM==2
  g.vertex({0,0}); g.vertex({4,0}); g.vertex({0,4}); g.element(GeometryTypes::triangle,{0,1,2});
#endif
  if(levels>=1) children(g,0); if(levels>=2) children(g,g.el[0].children[VDIM-1]); g.finalize(); }
// reference: chain of embeddings into the ancestor contained in the coarse view
inline std::pair<E,X> ancestor(const GV& coarse,E e,X x){ while(!coarse.indexSet().contains(e)){ x=e.geometryInFather().global(x); e=e.father(); } return {e,x}; }
template<class L,class F> void history(const Grd& g,L l0,L l1,F&& value){ // value(which,element,x): checks the local function
  struct State { L lf; int f,e; }; std::vector<State> s; s.reserve(4); s.push_back({l0,0,-1}); s.push_back({l1,1,-1});
  { int e=symPick("element",0,1); s[0].lf.bind(g.entity(e)); s[0].e=e; }
  for(int step=0;step<VSTEPS+VERIF_THOROUGH;step++){ size_t a=symPick("a",0,1),o=1-a;
    switch(symPick("op",0,6)){
      case 0: case 1: { int e=symPick("e",0,1); s[a].lf.bind(g.entity(e)); s[a].e=e; break; }
      case 2: s[a].lf.unbind(); s[a].e=-1; break;
      case 3: if constexpr(std::is_copy_assignable_v<L>){ s[a].lf=s[o].lf; s[a].f=s[o].f; s[a].e=s[o].e; } break;
      case 4: if constexpr(std::is_copy_assignable_v<L>){ L copy(s[o].lf); s[o].lf.unbind(); s[a].lf=copy; s[a].f=s[o].f; s[a].e=s[o].e; s[o].e=-1; } break;
      case 5: { L copy(std::move(s[a].lf)); L copy2(copy); if constexpr(std::is_move_assignable_v<L>) s[a].lf=std::move(copy2); break; }
      case 6: if constexpr(std::is_copy_assignable_v<L>){ auto& self=s[a].lf; s[a].lf=self; } break; }
    for(auto& t: s){ CHECK(bool(t.lf.bound())==(t.e>=0),"bound() reports whether an element is bound"); if(t.e>=0){ CHECK(t.lf.localContext()==g.entity(t.e),"localContext() is the bound element"); value(t.f,g.entity(t.e),t.lf); } } } }
inline void two(Grd& g){
#if VDIM==1
  g.vertex(X(0.)); g.vertex(X(4.)); g.vertex(X(6.)); g.element(GeometryTypes::line,{0,1}); g.element(GeometryTypes::line,{2,1}); g.finalize();
#elif VDIM==2
  g.vertex({0,0}); g.vertex({1,0}); g.vertex({0,1}); g.vertex({1,1}); g.element(GeometryTypes::triangle,{0,1,2}); g.element(GeometryTypes::triangle,{3,1,2}); g.finalize();
#endif
}
extern "C" void harness(){
  Grd g;
#if VPART==1 || VPART==2
  Mock::addMesh(g,Mock::VMESH,0); if(VDIM<3) for(auto& p: g.x) for(int k=0;k<VDIM;k++) p[k]+=symReal("move",-0.25,0.25); g.finalize(); auto gv=g.leafGridView();
  auto e=g.entity(symPick("element",0,1)); auto x=point("x"); X y=e.geometry().global(x); Quad q;
#if VPART==1
  auto check=[&](const auto& f,auto lf){ lf.bind(e); CHECK(lf.bound() && lf.localContext()==e,"bound to the element"); CHECK_EQ(f(y),q(y),"global value is that of the wrapped function"); CHECK_EQ(lf(x),q(y),"local value is the function at the global point");
    auto df=derivative(f); vec(df(y),q.grad(y)); auto ldf=localFunction(df); ldf.bind(e); vec(ldf(x),q.grad(y)); auto dlf=derivative(lf); CHECK(dlf.bound() && dlf.localContext()==e,"the derivative of a bound local function is bound"); vec(dlf(x),q.grad(y)); auto o=g.entity(1-e.e_); ldf.bind(o); vec(ldf(x),q.grad(o.geometry().global(x))); vec(dlf(x),q.grad(y)); CHECK(f.entitySet().gridView()==gv,"entity set"); };
  switch(symPick("form",0,4)){
    case 0: { auto f=makeAnalyticGridViewFunction(q,gv); check(f,localFunction(f)); break; }
    case 1: { AnalyticGridViewFunction f(q,gv); auto f2=f; f=f2; check(f,localFunction(f2)); break; }
    case 2: { auto f=makeAnalyticGridViewFunction(makeDifferentiableFunctionFromCallables(SignatureTag<double(X)>(),[q](const X& x){ return q(x); },[q](const X& x){ return q.grad(x); }),gv); auto lf=localFunction(f); lf.bind(e); CHECK_EQ(lf(x),q(y),"local value"); auto d=derivative(lf); vec(d(x),q.grad(y)); break; }
    case 3: { GridViewFunction<double(X),GV> f=makeAnalyticGridViewFunction(q,gv); auto c=f; f=makeAnalyticGridViewFunction(Quad(),gv); check(c,localFunction(c)); break; }
    case 4: { auto f=makeGridViewFunction([q](const X& x){ return q.grad(x); },gv); auto lf=localFunction(f); lf.bind(e); vec(lf(x),q.grad(y)); vec(f(y),q.grad(y)); auto h=makeGridViewFunction(f,gv); vec(h(y),q.grad(y)); bool thrown=false; try { auto d=derivative(lf); d(x); } catch(const Exception&){ thrown=true; } CHECK(thrown,"the derivative of a function without derivative reports an error"); break; } }
#else
  // composition with state, of different inner functions
  using namespace Functions::BasisFactory; auto b=makeBasis(gv,lagrangeDG<1>()); std::vector<double> v(b.size()); for(auto& t: v) t=symReal("v",-1,1); auto dg=makeDiscreteGlobalBasisFunction<double>(b,v); auto an=makeAnalyticGridViewFunction(q,gv); double s=symReal("s",-1,1);
  auto ld=localFunction(dg); ld.bind(e); double w=ld(x),u=q(y); X gr=q.grad(y);
  auto chk=[&](const auto& f,double expect){ auto lf=localFunction(f); CHECK(!lf.bound(),"a fresh local function is unbound"); lf.bind(e); CHECK(lf.bound() && lf.localContext()==e,"bound to the element"); CHECK_EQ(lf(x),expect,"composition of the inner values"); auto c=lf; auto o=g.entity(1-e.e_); lf.bind(o); CHECK(c.localContext()==e && lf.localContext()==o,"copies are bound independently"); CHECK_EQ(c(x),expect,"a copy keeps its own element"); lf.unbind(); CHECK(!lf.bound() && c.bound(),"copies are unbound independently"); CHECK_EQ(c(x),expect,"a copy keeps its own element"); CHECK(f.entitySet().gridView()==gv,"entity set of the inner functions"); };
  switch(symPick("form",0,5)){
    case 0: chk(makeComposedGridFunction([s](double a){ return s*a+a*a; },an),s*u+u*u); break;
    case 1: chk(makeComposedGridFunction([s](double a,double b){ return s*a-b*a; },an,dg),s*u-w*u); break;
    case 2: { auto outer=[s](double a,double b,const X& c){ return s*a-b*c[0]+c[VDIM-1]; }; auto ga=makeAnalyticGridViewFunction([q](const X& x){ return q.grad(x); },gv); chk(makeComposedGridFunction(std::ref(outer),std::ref(dg),std::cref(an),ga),s*w-u*gr[0]+gr[VDIM-1]); break; }
    case 3: { auto in=makeComposedGridFunction([](double a,double b){ return a-2*b; },dg,an); chk(makeComposedGridFunction([s](double a,double b){ return s*a*b; },in,an),s*(w-2*u)*u); break; }
    case 4: { auto f=makeComposedGridFunction([s](double a){ return s*a; },an); auto c=f; CHECK_EQ(f(y),s*u,"global value"); chk(c,s*u); break; }
    case 5: { GridViewFunction<double(X),GV> f=makeComposedGridFunction([s](double a,double b){ return s+a*b; },an,an); auto lf=localFunction(f); lf.bind(e); CHECK_EQ(lf(x),s+u*u,"type-erased composition"); CHECK_EQ(f(y),s+u*u,"type-erased composition"); break; } }
#endif
#elif VPART==3
  refined(g,symPick("levels",1,2)); int cl=symPick("coarseLevel",0,g.maxLevel()); auto cv=g.levelGridView(cl), fv=g.leafGridView(); using namespace Functions::BasisFactory;
  auto b=makeBasis(cv,lagrangeDG<1>()); std::vector<double> v(b.size()); for(auto& t: v) t=symReal("v",-1,1); auto f=makeDiscreteGlobalBasisFunction<double>(b,v); auto chk=[&](const auto& w,const auto& raw){ auto rl=localFunction(raw); auto lf=localFunction(w); CHECK(!lf.bound(),"a fresh local function is unbound");
    for(int round=0;round<2;round++){ E e=g.entity(symPick("element",0,g.el.size()-1)); ASSUME(fv.indexSet().contains(e)); { E a=e; while(a.hasFather() && !cv.indexSet().contains(a)) a=a.father(); ASSUME(cv.indexSet().contains(a)); } X x=point("x"); lf.bind(e); CHECK(lf.bound() && lf.localContext()==e,"bound to the fine element"); auto [c,z]=ancestor(cv,e,x); rl.bind(c); CHECK_EQ(lf(x),rl(z),"value of the coarse function at the same point");
      auto ld=derivative(lf); CHECK(ld.bound() && ld.localContext()==e,"derivative is bound to the same element"); auto rd=derivative(rl); vec(ld(x),rd(z)); lf.unbind(); CHECK(!lf.bound(),"unbound"); vec(ld(x),rd(z)); } };
  if(symBool("reference")){ CoarseFunctionOnFineGridView<std::reference_wrapper<decltype(f)>,GV> w(std::ref(f),fv); CHECK(w.entitySet().gridView()==fv,"entity set"); chk(w,f); } else { CoarseFunctionOnFineGridView<decltype(f),GV> w(f,fv); chk(w,f); auto d=derivative(w); auto ld=localFunction(d); E e=g.entity(g.el.size()-1); E a=e; while(a.hasFather() && !cv.indexSet().contains(a)) a=a.father(); if(fv.indexSet().contains(e) && cv.indexSet().contains(a)){ ld.bind(e); X x=point("x"); auto [c,z]=ancestor(cv,e,x); auto rd=localFunction(derivative(f)); rd.bind(c); vec(ld(x),rd(z)); } }
#elif VPART==4
  refined(g,symPick("levels",1,VDIM==1||VERIF_THOROUGH?2:1)); auto cv=g.levelGridView(0), fv=g.leafGridView(); using namespace Functions::BasisFactory;
  auto b=makeBasis(fv,lagrangeDG<1>()); std::vector<double> v(b.size()); for(auto& t: v) t=symReal("v",-1,1); auto f=makeDiscreteGlobalBasisFunction<double>(b,v); auto chk=[&](const auto& w){ auto rl=localFunction(f); auto lf=localFunction(w); CHECK(!lf.bound(),"a fresh local function is unbound");
    for(int round=0;round<(VDIM==2 && !VERIF_THOROUGH?1:2);round++){ E e=g.entity(symPick("fine",0,g.el.size()-1)); ASSUME(fv.indexSet().contains(e)); X x=point("x",0.01,0.99); double s=0; for(double t: x) s+=t; ASSUME(s<=0.99); auto [c,z]=ancestor(cv,e,x); lf.bind(c); CHECK(lf.bound() && lf.localContext()==c,"bound to the coarse element"); rl.bind(e); CHECK_EQ(lf(z),rl(x),"value of the fine function at the same point");
      auto ld=derivative(lf); CHECK(ld.bound() && ld.localContext()==c,"derivative is bound to the same element"); auto rd=derivative(rl); vec(ld(z),rd(x)); auto copy=lf; lf.unbind(); CHECK(!lf.bound() && copy.bound(),"copies are unbound independently"); CHECK_EQ(copy(z),rl(x),"a copy keeps its own element"); } };
  if(symBool("reference")){ FineFunctionOnCoarseGridView<std::reference_wrapper<decltype(f)>,GV> w(std::ref(f),cv); CHECK(w.entitySet().gridView()==cv,"entity set"); chk(w); } else { FineFunctionOnCoarseGridView<decltype(f),GV> w(f,cv); auto w2=w; chk(w2); }
#elif VPART==5
  // distance to and inclusion in a reference element, for all topologies
  FieldVector<double,3> x; for(int k=0;k<3;k++) x[k]=symReal("x",-1,2); int d=symPick("dim",1,3); unsigned id=symPick("topology",0,(1u<<d)-1); auto gt=GeometryType(id,d);
  bool inside; if(gt.isSimplex()){ double s=0; inside=true; for(int k=0;k<d;k++){ inside&= x[k]>=0; s+=x[k]; } inside&= s<=1; } else if(gt.isCube()){ inside=true; for(int k=0;k<d;k++) inside&= x[k]>=0 && x[k]<=1; } else if(gt.isPrism()) inside= x[0]>=0 && x[1]>=0 && x[0]+x[1]<=1 && x[2]>=0 && x[2]<=1; else inside= x[2]>=0 && x[2]<=1 && x[0]>=0 && x[1]>=0 && x[0]<=1-x[2] && x[1]<=1-x[2];
  auto dist=Functions::Impl::ReferenceElementUtilities::distance(id,d,x); CHECK(dist>=0,"distances are non-negative"); CHECK((dist<=0)==inside,"the distance vanishes exactly inside the reference element"); CHECK(Functions::Impl::ReferenceElementUtilities::checkInside(id,d,x,0.)==inside,"checkInside() with zero tolerance"); double tol=symReal("tol",0,1); CHECK(Functions::Impl::ReferenceElementUtilities::checkInside(id,d,x,tol)==(dist<=tol),"checkInside() agrees with distance()");
#elif VPART==6
  using namespace Mock; int kinds[]={VMESHES}; Mock::addMesh(g,kinds[symPick("kind",0,sizeof(kinds)/sizeof(int)-1)],0);
#if VDIM==2
  if(g.x.size()==3) for(int k=0;k<2;k++) g.x[2][k]+=symReal("move",-0.25,0.25); else { g.x[3][0]+=0.25; g.x[3][1]-=0.5; }
#endif
  g.finalize(); auto gv=g.leafGridView(); FaceNormalGridFunction<GV> f(gv); auto lf=localFunction(f); CHECK(!lf.bound(),"a fresh local function is unbound"); auto e=g.entity(0); lf.bind(e); auto re=referenceElement(e); X x=point("x",0.05,0.95);
  if(!e.type().isCube()){ double s=0; int n=e.type().isPrism()?2:VDIM; for(int k=0;k<n;k++) s+=x[k]; ASSUME(s<=0.95); }
  auto n=lf(x); double len=0; for(double t: n) len+=t*t; CHECK_EQ(len,1,"unit normal");
  // which face? distances to the faces in reference coordinates
  int hits=0; std::vector<double> ds; for(int i=0;i<re.size(1);i++){ auto rn=re.integrationOuterNormal(i); double l=0; for(double t: rn) l+=t*t; l=std::sqrt(l); auto c=re.position(i,1); double s=0; for(int k=0;k<VDIM;k++) s+=(c[k]-x[k])*rn[k]; ds.push_back(s/l); }
#ifdef VERIF_SYMBOLIC
  const double slack=0;
#else
  const double slack=1e-9;
#endif
  for(int i=0;i<re.size(1) && !hits;i++){ bool closest=true; for(double s: ds) closest&= ds[i]<=s+slack; if(!closest) continue; auto Jit=e.geometry().jacobianInverseTransposed(x); auto rn=re.integrationOuterNormal(i); X m(0.); for(int r=0;r<VDIM;r++) for(int c=0;c<VDIM;c++) m[r]+=Jit[r][c]*rn[c];
    double l=0; for(double t: m) l+=t*t; l=std::sqrt(l); bool same=true; for(int k=0;k<VDIM;k++){ double t=m[k]/l-n[k]; same&= t<1e-6 && t>-1e-6; } hits+= same; }
  CHECK(hits>0,"outer unit normal of a closest face");
#elif VPART==7
  refined(g,2); using GIA=GeometryInAncestor<E>; E fine=g.entity(symPick("element",0,g.el.size()-1)); int lvl=symPick("level",0,2); ASSUME(lvl<=fine.level()); auto inc=[&](const E& e){ return e.level()>lvl; };
  E coarse=fine; while(coarse.level()>lvl) coarse=coarse.father(); X x=point("x"); X z=x; for(E e=fine;e.level()>lvl;e=e.father()) z=e.geometryInFather().global(z);
  auto ok=[&](const GIA& a){ CHECK(a.fineElement()==fine,"fine element"); CHECK(a.coarseElement()==coarse,"coarse element"); vec(a.global(x),z); vec(a.local(z),x); };
  GIA a; if(symBool("rvalue")){ E t=fine; const E& c=a.bind(std::move(t),inc); CHECK(c==coarse,"bind() returns the coarse element"); t=E(); } else { const E& c=a.bind(fine,inc); CHECK(c==coarse,"bind() returns the coarse element"); }
  ok(a); auto p=std::make_unique<GIA>(a); ok(*p);
  switch(symPick("how",0,3)){
    case 0: { E other=g.entity(0); a.bind(other,[](const E&){ return false; }); ok(*p); break; }              // rebinding the original leaves the copy
    case 1: { auto q=std::make_unique<GIA>(*p); p->bind(g.entity(0),[](const E&){ return false; }); p.reset(); ok(*q); ok(a); break; }
    case 2: { E copy=fine; GIA q(a,copy); p.reset(); E other=g.entity(0); a.bind(other,[](const E&){ return false; }); ok(q); CHECK(&q.fineElement()==&copy,"refers to the given element"); break; }
    case 3: { GIA fresh; GIA q(fresh); q.bind(fine,inc); ok(q); break; } }
#elif VPART==8 || VPART==9 || VPART==10
  two(g); auto gv=g.leafGridView(); Quad q[2]; auto A0=makeAnalyticGridViewFunction(q[0],gv),A1=makeAnalyticGridViewFunction(q[1],gv); X x(0.25);
#if VPART==8
  history(g,localFunction(A0),localFunction(A1),[&](int f,E e,const auto& lf){ CHECK_EQ(lf(x),q[f](e.geometry().global(x)),"value at the global point"); });
#elif VPART==9
  auto l0=localFunction(A0),l1=localFunction(A1); history(g,derivative(l0),derivative(l1),[&](int f,E e,const auto& lf){ vec(lf(x),q[f].grad(e.geometry().global(x))); });
#else
  GridViewFunction<double(X),GV> f0=A0,f1=A1; history(g,localFunction(f0),localFunction(f1),[&](int f,E e,const auto& lf){ CHECK_EQ(lf(x),q[f](e.geometry().global(x)),"value at the global point"); auto d=derivative(lf); vec(d(x),q[f].grad(e.geometry().global(x))); });
#endif
#elif VPART==11
  two(g); auto gv=g.leafGridView(); FaceNormalGridFunction<GV> f(gv); X x{0.1,0.3}; history(g,localFunction(f),localFunction(f),[&](int,E e,const auto& lf){ auto n=lf(x); vec(n,e.e_==0?X{-1.,0.}:X{0.,1.}); });
#else
  // copies of the local functions of wrappers: bind, copy, rebind the original, evaluate both
  refined(g,2); auto cv=g.levelGridView(0), fv=g.leafGridView(); using namespace Functions::BasisFactory; std::vector<double> v; auto fill=[&](size_t n){ v.resize(n); for(auto& t: v) t=symReal("v",-1,1); };
  X x=point("x",0.05,0.45);
  if(symBool("coarse")){ auto b=makeBasis(cv,lagrangeDG<1>()); fill(b.size()); auto f=makeDiscreteGlobalBasisFunction<double>(b,v); CoarseFunctionOnFineGridView<decltype(f),GV> w(f,fv); auto lf=std::make_unique<decltype(localFunction(w))>(localFunction(w)); auto rl=localFunction(f);
    auto is=[&](const auto& l,E e){ auto [c,z]=ancestor(cv,e,x); rl.bind(c); CHECK(l.localContext()==e,"localContext()"); CHECK_EQ(l(x),rl(z),"value of the coarse function at the same point"); };
    E e=g.entity(symPick("e0",0,g.el.size()-1)),o=g.entity(symPick("e1",0,g.el.size()-1)); ASSUME(fv.indexSet().contains(e) && fv.indexSet().contains(o)); lf->bind(e); auto c=*lf; is(c,e); lf->bind(o); is(c,e); is(*lf,o); auto d=c; c.bind(o); is(c,o); is(d,e); lf.reset(); is(c,o); is(d,e); d.bind(o); is(d,o); c.unbind(); CHECK(!c.bound() && d.bound(),"copies are unbound independently"); is(d,o); GridViewFunction<double(X),GV> er=w; auto le=localFunction(er); le.bind(e); auto le2=le; le.bind(o); is(le2,e); is(le,o);
  } else { auto b=makeBasis(fv,lagrangeDG<1>()); fill(b.size()); auto f=makeDiscreteGlobalBasisFunction<double>(b,v); FineFunctionOnCoarseGridView<decltype(f),GV> w(f,cv); auto lf=localFunction(w); auto rl=localFunction(f);
    auto is=[&](const auto& l,E e){ auto [c,z]=ancestor(cv,e,x); CHECK(l.localContext()==c,"localContext()"); rl.bind(e); CHECK_EQ(l(z),rl(x),"value of the fine function at the same point"); };
    auto coarse=[&](E e){ while(e.hasFather()) e=e.father(); return e; }; E e=g.entity(symPick("e0",0,g.el.size()-1)),o=g.entity(symPick("e1",0,g.el.size()-1)); ASSUME(fv.indexSet().contains(e) && fv.indexSet().contains(o)); lf.bind(coarse(e)); auto c=lf; is(c,e); lf.bind(coarse(o)); is(c,e); is(lf,o); is(c,e); auto d=c; c.bind(coarse(o)); is(c,o); is(d,e); is(c,o); GridViewFunction<double(X),GV> er=w; auto le=localFunction(er); le.bind(coarse(e)); auto le2=le; le.bind(coarse(o)); is(le2,e); is(le,o); is(le2,e); }
#endif
  REACH("end");
}
