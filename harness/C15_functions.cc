// TITLE: type-erased functions (DifferentiableFunction, LocalFunction, GridFunction) own their wrapped function like a value
// BOUNDS: two wrappers in any state (empty, small, large, buffer-size wrapped object, with/without derivative), histories of 2 (thorough 3) arbitrary operations (construct, copy/move construct, copy/move assign incl. self, swap, bind, unbind); arbitrary coefficients and arguments; function sequences from callables with up to three derivatives
// CASE: differentiable -DPART=1
// CASE: local -DPART=2
// CASE: gridfunction -DPART=3
// CASE: callables -DPART=4
#include <config.h>
#include <optional>
#include <utility>
#include <array>
#include "sym.h"
#include "mockgrid.hh"
#include <dune/functions/common/differentiablefunction.hh>
#include <dune/functions/common/differentiablefunctionfromcallables.hh>
#include <dune/functions/common/localfunction.hh>
#include <dune/functions/gridfunctions/gridfunction.hh>
#include <dune/functions/gridfunctions/gridviewfunction.hh>
using namespace Dune::Functions;
static int live=0;
struct Count { Count(){ live++; } Count(const Count&){ live++; } Count(Count&&) noexcept { live++; } Count& operator=(const Count&)=default; ~Count(){ live--; } };
template<int pad> struct Payload : Count { double a,b; long p[pad]; Payload(double a,double b): a(a),b(b){ p[0]=7; } };
template<> struct Payload<0> : Count { double a,b; Payload(double a,double b): a(a),b(b){} };
struct Context { double id; };
#if PART==1 || PART==4
template<int pad> struct Deriv : Payload<pad> { using Payload<pad>::Payload; double operator()(double x) const { return this->a; } };
template<int pad> struct Affine : Payload<pad> { using Payload<pad>::Payload; double operator()(double x) const { return this->a*x+this->b; } friend Deriv<pad> derivative(const Affine& f){ return {f.a,f.b}; } };
template<int pad> struct Plain : Payload<pad> { using Payload<pad>::Payload; double operator()(double x) const { return this->a*x+this->b; } };
#endif
#if PART==1
using W=DifferentiableFunction<double(double)>;
struct Model { int kind=-1; double a=0,b=0; bool unspecified=false; };
static void make(W& w,Model& m,bool construct){ int k=symPick("kind",0,4); double a=symReal("a",-4,4),b=symReal("b",-4,4); m={k,a,b,false};
  switch(k){ case 0: w=Affine<0>(a,b); break; case 1: w=Affine<16>(a,b); break; case 2: w=Plain<0>(a,b); break; case 3: { Affine<4> f(a,b); w=f; f.a=0; } break; case 4: w=[=](double x){ return a*x+b; }; break; } }
static void verify(W* w,Model* m,int n){
  for(int i=0;i<n;i++){ const W& c=w[i]; if(m[i].unspecified) continue; CHECK(bool(c)==(m[i].kind>=0),"wrapper is empty exactly if nothing is stored"); if(m[i].kind<0) continue;
    double x=symReal("x",-3,3); CHECK_EQ(c(x),m[i].a*x+m[i].b,"wrapper evaluates its own function");
    bool thrown=false; try{ auto d=derivative(c); CHECK_EQ(d(x),m[i].a,"derivative of the wrapped function"); } catch(const Dune::NotImplemented&){ thrown=true; }
    CHECK(thrown==(m[i].kind==2||m[i].kind==4),"derivative() throws exactly if the wrapped function has none");
    CHECK(c.target_type()==(m[i].kind==0?typeid(Affine<0>):m[i].kind==1?typeid(Affine<16>):m[i].kind==2?typeid(Plain<0>):m[i].kind==3?typeid(Affine<4>):c.target_type()),"target_type() names the wrapped type"); } }
#endif
#if PART==2
struct Local : Count { double a; long pad[1]; std::optional<Context> c; Local(double a): a(a){} void bind(const Context& x){ c=x; } void unbind(){ c.reset(); } bool bound() const { return bool(c); } const Context& localContext() const { return *c; }
  double operator()(double x) const { return a*x+c->id; } friend Local derivative(const Local& l){ Local d(0); d.c=Context{0}; return d; } };
struct Big : Local { using Local::Local; long q[20]; friend Big derivative(const Big& l){ Big d(0); d.c=Context{0}; return d; } };
using W=LocalFunction<double(double),Context,DefaultDerivativeTraits>;
struct Model { int kind=-1; double a=0; double at=0; bool bnd=false; bool unspecified=false; };
static void make(W& w,Model& m,bool){ int k=symPick("kind",0,1); double a=symReal("a",-4,4); m={k,a,0,false,false}; if(k==0) w=Local(a); else w=Big(a); }
static void verify(W* w,Model* m,int n){ for(int i=0;i<n;i++){ const W& c=w[i]; if(m[i].unspecified) continue; CHECK(bool(c)==(m[i].kind>=0),"wrapper is empty exactly if nothing is stored"); if(m[i].kind<0) continue;
    CHECK(c.bound()==m[i].bnd,"bound() reports this wrapper's state"); if(!m[i].bnd) continue; double x=symReal("x",-3,3); CHECK_EQ(c(x),m[i].a*x+m[i].at,"bound wrapper evaluates its own local function"); CHECK_EQ(c.localContext().id,m[i].at,"localContext() is the bound context"); } }
#endif
#if PART==1 || PART==2
extern "C" void harness(){
  auto heap=__sym_live_heap();
  { constexpr int N=2; W w[N]; Model m[N]; for(int i=0;i<N;i++) if(symBool("filled")) make(w[i],m[i],true);
    int steps=VERIF_THOROUGH?3:2;
    for(int s=0;s<steps;s++){
      int op=symPick("op",0,PART==2?7:6), a=symPick("target",0,1), b=1-a; if(op==4||op==5) b=symPick("source",0,1);
      if(m[b].unspecified) continue;
      switch(op){
        case 0: make(w[a],m[a],false); break;
        case 1: w[a]=W(); m[a]={}; break;
        case 2: { W c(w[b]); w[a]=std::move(c); m[a]=m[b]; } break;
        case 3: { W c(std::move(w[b])); w[a]=c; m[a]=m[b]; m[b].unspecified=true; } break;
        case 4: w[a]=w[b]; m[a]=m[b]; break;
        case 5: w[a]=std::move(w[b]); m[a]=m[b]; m[b].unspecified=true; break;
        case 6: std::swap(w[a],w[b]); std::swap(m[a],m[b]); break;
#if PART==2
        case 7: if(m[a].kind>=0 && !m[a].unspecified){ if(symBool("unbind")){ w[a].unbind(); m[a].bnd=false; } else { double id=symReal("context",0,100); w[a].bind(Context{id}); m[a].at=id; m[a].bnd=true; } } break;
#endif
      }
      verify(w,m,N); } }
  CHECK(live==0,"every wrapped function is destroyed exactly once"); CHECK(__sym_live_heap()==heap,"no memory is leaked");
  REACH("end");
}
#endif
#if PART==3
using Grid=Dune::Mock::Grid<1,1,1>; using GV=Grid::LeafGridView; using E=GV::Codim<0>::Entity; using X=Dune::FieldVector<double,1>; using ES=GridViewEntitySet<GV,0>;
template<int pad> struct GF : Payload<pad> { using EntitySet=ES; ES es; GF(const GV& gv,double a,double b): Payload<pad>(a,b),es(gv){}
  double operator()(const X& x) const { return this->a*x[0]+this->b; }
  const ES& entitySet() const { return es; }
  struct LF : Payload<pad> { std::optional<E> e; LF(double a,double b): Payload<pad>(a,b){} void bind(const E& x){ e=x; } void unbind(){ e.reset(); } bool bound() const { return bool(e); } const E& localContext() const { return *e; }
    double operator()(const X& x) const { return this->a*e->geometry().global(x)[0]+this->b; } };
  friend LF localFunction(const GF& f){ return LF(f.a,f.b); } };
extern "C" void harness(){
  { Grid g; g.vertex({0.}); g.vertex({1.}); g.vertex({3.}); g.element(Dune::GeometryTypes::line,{0,1}); g.element(Dune::GeometryTypes::line,{1,2}); g.finalize(); auto gv=g.leafGridView();
    double a=symReal("a",-4,4),b=symReal("b",-4,4),a2=symReal("a",-4,4); X x(symReal("x",0,1));
    auto test=[&](auto wrap,auto pad){ using W=decltype(wrap);
      W w=GF<decltype(pad)::value>(gv,a,b); W v=GF<0>(gv,a2,b); W copy(w); W moved(std::move(v)); W empty; W emptyCopy(empty); CHECK(!emptyCopy && !empty,"copy of an empty wrapper is empty");
      auto l=localFunction(w); l.bind(g.entity(0)); auto l2=l; l2.bind(g.entity(1)); auto l3=localFunction(moved); CHECK(!l3.bound(),"fresh local functions are not bound"); l3.bind(g.entity(1));
      CHECK_EQ(l(x),a*x[0]+b,"local function of element 0"); CHECK_EQ(l2(x),a*(1+2*x[0])+b,"rebound copy"); CHECK_EQ(l3(x),a2*(1+2*x[0])+b,"local function of the moved wrapper");
      CHECK(l.localContext()==g.entity(0) && l2.localContext()==g.entity(1),"local contexts are independent");
      w=moved; CHECK_EQ(w(x),a2*x[0]+b,"assigned wrapper"); CHECK_EQ(copy(x),a*x[0]+b,"copy is independent"); CHECK_EQ(l(x),a*x[0]+b,"local function is independent of the wrapper");
      l2=l3; CHECK_EQ(l2(x),a2*(1+2*x[0])+b,"assigned local function"); l3.unbind(); CHECK(l2.bound() && !l3.bound(),"unbind acts on one local function"); 
      CHECK(copy.entitySet().contains(g.entity(0)),"entity set is forwarded"); copy=empty; CHECK(!copy,"assigned from empty"); w=std::move(emptyCopy); CHECK(!w,"moved from empty"); };
    switch(symPick("wrapper",0,3)){
      case 0: test(GridFunction<double(X),ES>(),std::integral_constant<int,0>()); break;
      case 1: test(GridFunction<double(X),ES>(),std::integral_constant<int,16>()); break;
      case 2: test(GridViewFunction<double(X),GV>(),std::integral_constant<int,0>()); break;
      case 3: test(GridViewFunction<double(X),GV>(),std::integral_constant<int,16>()); break;
    } }
  CHECK(live==0,"every wrapped function is destroyed exactly once");
  REACH("end");
}
#endif
#if PART==4
struct DF { double a; double operator()(double) const { return a; } };
struct DDF { double b; double operator()(double) const { return b*b; } };
template<class F> void fourfold(F f,double a,double b,double x){
  CHECK_EQ(f(x),a*x+b,"function"); auto d=derivative(f); CHECK_EQ(d(x),a,"first derivative"); auto dd=derivative(d); CHECK_EQ(dd(x),b*b,"second callable"); auto g=f; f=F(g); CHECK_EQ(derivative(derivative(f))(x),b*b,"copy has the same derivatives"); 
  bool thrown=false; try { derivative(dd); } catch(const Dune::NotImplemented&){ thrown=true; } CHECK(thrown,"derivative behind the last callable is not implemented"); 
  DifferentiableFunction<double(double)> w(f); CHECK_EQ(derivative(derivative(w))(x),b*b,"wrapped sequence"); }
static auto build(int k,double a,double b){ Affine<0> f(a,b); DF df{a}; DDF ddf{b};
  return makeDifferentiableFunctionFromCallables(SignatureTag<double(double)>(),f,df,ddf); }
extern "C" void harness(){
  double a=symReal("a",-4,4),b=symReal("b",-4,4),x=symReal("x",-3,3);
  { Affine<0> f(a,b); 
  fourfold(makeDifferentiableFunctionFromCallables(SignatureTag<double(double)>(),Affine<16>(a,b),DF{a},DDF{b}),a,b,x);
  const DF df{a}; auto g=makeDifferentiableFunctionFromCallables(SignatureTag<double(double)>(),f,df,DDF{b}); f.a=99; fourfold(g,a,b,x);
  auto single=makeDifferentiableFunctionFromCallables(SignatureTag<double(double)>(),Affine<0>(a,b)); CHECK_EQ(single(x),a*x+b,"function without derivative");
  fourfold(build(0,a,b),a,b,x); }
  CHECK(live==0,"every callable is destroyed exactly once");
  REACH("end");
}
#endif
