// TITLE: B-spline shape functions, derivatives and indices against the Cox-de Boor definition
// BOUNDS: dimension 1 (order 0..3, up to 3 nonempty spans) and 2 (order 0..2, 2x2 spans); open and plain knot vectors, knots with multiplicity up to order; every knot spacing in [1/4,2], every evaluation point (symbolic reals); every span; re-binding and copies of bound local views; values, jacobian, first and second derivatives; nonnegativity for order <=1 (and implied by equality with the definition otherwise)
// ASSUME: grid replaced by the mock grid of /verif/harness/mockgrid.hh (structured cube mesh, lexicographic element numbering)
// CASE: d1p0 -DVDIM=1 -DVP=0 -DVM=3
// CASE: d1p1 -DVDIM=1 -DVP=1 -DVM=3
// CASE: d1p2 -DVDIM=1 -DVP=2 -DVM=2
// CASE: d1p2m3 -DVDIM=1 -DVP=2 -DVM=3
// CASE: d1p3 -DVDIM=1 -DVP=3 -DVM=2
// CASE: d2p0 -DVDIM=2 -DVP=0 -DVM=2
// CASE: d2p1 -DVDIM=2 -DVP=1 -DVM=2
// CASE: d2p2 -DVDIM=2 -DVP=2 -DVM=2
// CASE-THOROUGH: d1p3m3 -DVDIM=1 -DVP=3 -DVM=3
// CASE-THOROUGH: d2p2m3 -DVDIM=2 -DVP=2 -DVM=3
#include <config.h>
#include <vector>
#include "sym.h"
#include "mockgrid.hh"
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
#include <dune/functions/functionspacebases/bsplinebasis.hh>
using namespace Dune; using namespace Dune::Functions; using std::size_t;
constexpr int P=VP, M=VM, DIM=VDIM;
// value, first and second derivative
struct Jet { double v=0,d=0,dd=0; };
static Jet operator*(const Jet& a,const Jet& b){ return {a.v*b.v,a.d*b.v+a.v*b.d,a.dd*b.v+2*a.d*b.d+a.v*b.dd}; }
static Jet operator+(const Jet& a,const Jet& b){ return {a.v+b.v,a.d+b.d,a.dd+b.dd}; }
// Cox-de Boor recursion for N_{i,p} on span `span`; empty[i]: knots i and i+1 coincide
struct Ref { std::vector<double> t; std::vector<int> pos; // pos: index of the distinct knot
  Jet N(int i,int p,int span,double x) const { if(p==0) return {double(i==span),0,0}; Jet r;
    if(pos[i+p]!=pos[i]){ double h=t[i+p]-t[i]; r=r+Jet{(x-t[i])/h,1/h,0}*N(i,p-1,span,x); }
    if(pos[i+p+1]!=pos[i+1]){ double h=t[i+p+1]-t[i+1]; r=r+Jet{(t[i+p+1]-x)/h,-1/h,0}*N(i+1,p-1,span,x); }
    return r; } };
using Grid_=Mock::Grid<DIM,DIM,int(GeometryTypes::cube(DIM).id())+1>;
struct Oracle { Ref ref; std::vector<int> spans; bool open; int n() const { return int(ref.t.size())-P-1; } };
template<class LV> void checkView(const LV& lv,const Oracle& O,const std::array<unsigned,DIM>& elems,int e,const FieldVector<double,DIM>& xi){
  int ijk[DIM]; { int q=e; for(int d=0;d<DIM;d++){ ijk[d]=q%elems[d]; q/=elems[d]; } }
  // one-dimensional data from the definition
  std::vector<Jet> one[DIM]; int first[DIM], cnt[DIM]; double h[DIM];
  for(int d=0;d<DIM;d++){ int s=O.spans[ijk[d]]; h[d]=O.ref.t[s+1]-O.ref.t[s]; double x=O.ref.t[s]+h[d]*xi[d];
    int lo=s-P<0?0:s-P, hi=s<O.n()-1?s:O.n()-1; first[d]=lo; cnt[d]=hi-lo+1; for(int i=lo;i<=hi;i++) one[d].push_back(O.ref.N(i,P,s,x)); 
    // all other functions vanish on this span
    for(int i=0;i<O.n();i++) if(i<lo||i>hi){ Jet z=O.ref.N(i,P,s,x); CHECK_EQ(z.v,0.,"functions which are not local vanish on the span"); } }
  const auto& fe=lv.tree().finiteElement(); size_t n=1; for(int d=0;d<DIM;d++) n*=cnt[d];
  CHECK(lv.size()==n && lv.tree().size()==n && fe.size()==n && fe.localBasis().size()==n && fe.localCoefficients().size()==n,"number of local shape functions"); if(lv.size()!=n) return;
  CHECK(fe.localBasis().order()==P,"order");
  std::vector<FieldVector<double,1>> v; std::vector<FieldMatrix<double,1,DIM>> J; fe.localBasis().evaluateFunction(xi,v); fe.localBasis().evaluateJacobian(xi,J);
  CHECK(v.size()==n && J.size()==n,"number of values"); if(v.size()!=n || J.size()!=n) return;
  auto digits=[&](size_t i,int* m){ for(int d=0;d<DIM;d++){ m[d]=i%cnt[d]; i/=cnt[d]; } };
  double sum=0;
  for(size_t i=0;i<n;i++){ int m[DIM]; digits(i,m); double val=1; size_t g=0; for(int d=DIM-1;d>=0;d--) g=g*O.n()+first[d]+m[d]; for(int d=0;d<DIM;d++) val*=one[d][m[d]].v;
    CHECK(lv.index(i).size()==1 && lv.index(i)[0]==g,"global index of the shape function");
    CHECK_EQ(v[i][0],val,"value agrees with the Cox-de Boor definition"); if(P<=1) CHECK(v[i][0]>=0,"nonnegative"); sum+=v[i][0];
    for(int j=0;j<DIM;j++){ double der=1; for(int d=0;d<DIM;d++) der*= d==j? one[d][m[d]].d*h[d] : one[d][m[d]].v; CHECK_EQ(J[i][0][j],der,"jacobian is the derivative of the value"); } }
  if(O.open) CHECK_EQ(sum,1.,"partition of unity");
  std::vector<FieldVector<double,1>> o; 
  for(int j=0;j<DIM;j++){ fe.localBasis().template evaluate<1>(std::array<int,1>{j},xi,o); CHECK(o.size()==n,"number of first derivatives"); for(size_t i=0;i<n;i++) CHECK_EQ(o[i][0],J[i][0][j],"first derivative agrees with the jacobian");
    for(int k=0;k<DIM;k++){ fe.localBasis().template evaluate<2>(std::array<int,2>{j,k},xi,o); CHECK(o.size()==n,"number of second derivatives");
      for(size_t i=0;i<n;i++){ int m[DIM]; digits(i,m); double r=1; for(int d=0;d<DIM;d++){ int q=(d==j)+(d==k); r*= q==0?one[d][m[d]].v:q==1?one[d][m[d]].d*h[d]:one[d][m[d]].dd*h[d]*h[d]; } CHECK_EQ(o[i][0],r,"second derivative is the derivative of the jacobian"); } } }
  // local keys: distinct, on the right codimension
  for(size_t i=0;i<n;i++){ auto& k=fe.localCoefficients().localKey(i); int m[DIM]; digits(i,m); unsigned cd=0; bool two=true; for(int d=0;d<DIM;d++){ cd+= m[d]==0||m[d]==cnt[d]-1; two&= cnt[d]>1; }
    CHECK(k.codim()==cd,"codimension of the local key");
    if(two && DIM<=2) for(size_t j=0;j<i;j++) { auto& q=fe.localCoefficients().localKey(j); CHECK(!(q.codim()==k.codim() && q.subEntity()==k.subEntity() && q.index()==k.index()),"local keys are distinct"); }
    if(two && DIM<=2 && cd==DIM){ unsigned c=0; for(int d=0;d<DIM;d++) if(m[d]>0) c|=1u<<d; CHECK(k.subEntity()==c && k.index()==0,"corner degrees of freedom"); }
    if(two && DIM<=2){ unsigned c=0; for(size_t j=0;j<n;j++){ auto& q=fe.localCoefficients().localKey(j); c+= q.codim()==k.codim() && q.subEntity()==k.subEntity(); } CHECK(k.index()<c,"indices on each sub-entity are consecutive"); } }
}
extern "C" void harness(){
  // knots: M nonempty spans, possibly with one multiple interior knot
  double h[M]; std::vector<double> knots{symReal("t0",-1,1)}; std::vector<int> pos{0}; 
  int mult=M>1 ? symPick("multiplicity",1,P>1?P:1) : 1, where=M>2 ? symPick("where",1,M-1) : 1;
  bool useUniform=mult==1 && symBool("uniform"); double hu=symReal("h",0.25,2);
  for(int i=0;i<M;i++){ h[i]=useUniform?hu:symReal("h",0.25,2); knots.push_back(knots.back()+h[i]); pos.push_back(i+1); if(i+1==where && i+1<M) for(int k=1;k<mult;k++){ knots.push_back(knots.back()); pos.push_back(i+1); } }
  bool open=symBool("open"); if(!open && int(knots.size())<P+2) return;
  Oracle O; O.open=open; if(open) for(int i=0;i<P;i++){ O.ref.t.push_back(knots[0]); O.ref.pos.push_back(0); }
  for(size_t i=0;i<knots.size();i++){ O.ref.t.push_back(knots[i]); O.ref.pos.push_back(pos[i]); }
  if(open) for(int i=0;i<P;i++){ O.ref.t.push_back(knots.back()); O.ref.pos.push_back(pos.back()); }
  for(size_t i=0;i+1<O.ref.t.size();i++) if(O.ref.pos[i]!=O.ref.pos[i+1]) O.spans.push_back(i);
  Grid_ g; std::array<unsigned,DIM> elems; elems.fill(M);
  if constexpr(DIM==1){ for(int i=0;i<=M;i++) g.vertex({double(i)}); for(int i=0;i<M;i++) g.element(GeometryTypes::line,{i,i+1}); }
  else { for(int j=0;j<=M;j++) for(int i=0;i<=M;i++) g.vertex({double(i),double(j)}); for(int j=0;j<M;j++) for(int i=0;i<M;i++) g.element(GeometryTypes::quadrilateral,{i+j*(M+1),i+1+j*(M+1),i+(j+1)*(M+1),i+1+(j+1)*(M+1)}); }
  g.finalize(); auto gv=g.leafGridView(); using GV=decltype(gv);
  int N=1; for(int d=0;d<DIM;d++) N*=O.n(); int E=1; for(int d=0;d<DIM;d++) E*=M;
  auto run=[&](auto&& basis){
    CHECK(basis.size()==size_t(N) && basis.dimension()==size_t(N),"size is the number of tensor product B-splines");
    size_t mx=1; for(int d=0;d<DIM;d++) mx*=P+1;
    FieldVector<double,DIM> xi; for(int d=0;d<DIM;d++) xi[d]=symReal("xi",0,1);
    auto lv=basis.localView(); int e=symPick("element",0,E-1);
    CHECK(lv.maxSize()==mx,"maximal number of local functions");
    if(symBool("rebind")){ lv.bind(g.entity(E-1-e)); }
    lv.bind(g.entity(e)); checkView(lv,O,elems,e,xi);
    // a copy of a bound view is bound to the same span and survives re-binding of the original
    auto copy=lv; lv.bind(g.entity(E-1-e)); checkView(copy,O,elems,e,xi);
    // the elements together use every global index
    std::vector<char> used(N,0); for(int q=0;q<E;q++){ lv.bind(g.entity(q)); for(size_t i=0;i<lv.size();i++){ size_t k=lv.index(i)[0]; CHECK(k<size_t(N),"index below size"); if(k<size_t(N)) used[k]=1; } }
    for(int k=0;k<N;k++) CHECK(used[k],"every global index belongs to some span");
    REACH("end"); };
  if(useUniform && symBool("constructor")){ FieldVector<double,DIM> lo,up; std::array<unsigned,DIM> el; for(int d=0;d<DIM;d++){ lo[d]=knots.front(); up[d]=knots.back(); el[d]=M; } run(BSplineBasis<GV>(gv,lo,up,el,unsigned(P),open)); }
  else if(symBool("factory")){ auto factory=[&]{ std::vector<double> k2(knots); return BasisFactory::bSpline(k2,P,open); }(); run(BasisFactory::makeBasis(gv,factory)); }
  else run(BSplineBasis<GV>(gv,knots,unsigned(P),open));
}
