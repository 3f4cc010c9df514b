// TITLE: a restricted basis has exactly the degrees of freedom of the subdomain, and none elsewhere
// BOUNDS: meshes of 3 or 4 elements (lines, quadrilateral+triangles, hexahedron+pyramid+prism+tetrahedron), arbitrary orientation of one element; every subset of elements as first subdomain, several overlapping or disjoint second subdomains; restricted leaf, power, dynamic power and composite bases at the root and inside trees; bind histories of 3 elements with copies; subdomains extended before basis.update()
// ASSUME: grid replaced by the mock grid of /verif/harness/mockgrid.hh
// CASE: layout1 -DVPART=1 -DVDIM=1
// CASE: layout2 -DVPART=1 -DVDIM=2
// CASE: layout3 -DVPART=1 -DVDIM=3
// CASE-THOROUGH: layout2v -DVPART=1 -DVDIM=2 -DVBYVALUE
// CASE: history2 -DVPART=2 -DVDIM=2
// CASE: update2 -DVPART=3 -DVDIM=2
// CASE: values2 -DVPART=4 -DVDIM=2
#include "trees.hh"
#include "strip.hh"
#include <dune/common/tuplevector.hh>
#include <dune/functions/common/subdomain.hh>
#include <dune/functions/functionspacebases/restrictedbasis.hh>
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
#include <dune/functions/functionspacebases/interpolate.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
#include <dune/functions/backends/istlvectorfactory.hh>
#include <dune/functions/backends/istlvectorbackend.hh>
using namespace Dune; using namespace Dune::Functions; using Dune::Functions::Experimental::SubDomain; using std::size_t;
using Grd=Mock::Grid<VDIM,VDIM,0>; using GrV=Grd::LeafGridView; using SD=SubDomain<GrV>;
using Table=std::vector<std::vector<size_t>>;   // global indices of a scalar space on every element of its grid view, empty elsewhere
template<class GV,class F> Table table(const Grd& g,const GV& gv,F&& f){ Table t(g.el.size()); auto b=makeBasis(gv,f); auto lv=b.localView(); for(const auto& e: elements(gv)){ lv.bind(e); for(size_t i=0;i<lv.size();i++) t[e.e_].push_back(lv.index(i)[0]); } return t; }
template<class F> void withBasis(int k,const Grd& g,const SD& A,const SD& B,F&& f){
  using namespace BasisFactory; using namespace Experimental::BasisFactory; auto gv=g.leafGridView();
  auto a=[&](auto x){ return table(g,A.gridView(),x); }; auto b=[&](auto x){ return table(g,B.gridView(),x); }; auto w=[&](auto x){ return table(g,gv,x); }; using T=std::vector<Table>;
  switch(k){
    case 0: f(makeBasis(gv,restrict(lagrange<2>(),A)),T{a(lagrange<2>())}); break;
    case 1: f(makeBasis(gv,restrict(lagrangeDG<1>(),A)),T{a(lagrangeDG<1>())}); break;
    case 2: { auto t=a(lagrange<1>()); f(makeBasis(gv,restrict(power<2>(lagrange<1>(),blockedInterleaved()),A)),T{t,t}); break; }
    case 3: f(makeBasis(gv,composite(restrict(lagrange<1>(),A),restrict(lagrange<2>(),B),lagrange<1>(),blockedLexicographic())),T{a(lagrange<1>()),b(lagrange<2>()),w(lagrange<1>())}); break;
    case 4: { auto t=a(lagrange<2>()); f(makeBasis(gv,composite(lagrange<1>(),restrict(composite(power<2>(lagrange<2>(),flatInterleaved()),lagrange<1>(),flatLexicographic()),A),restrict(lagrange<0>(),B),flatLexicographic())),T{w(lagrange<1>()),t,t,a(lagrange<1>()),b(lagrange<0>())}); break; }
    case 5: { auto t=a(lagrange<1>()); f(makeBasis(gv,power<2>(restrict(lagrange<1>(),A),flatInterleaved())),T{t,t}); break; }
    case 6: { auto t=a(lagrange(1)); f(makeBasis(gv,composite(restrict(power(lagrange(1),2,flatLexicographic()),A),restrict(lagrange<1>(),B),flatLexicographic())),T{t,t,b(lagrange<1>())}); break; }
    case 7: { auto t=a(lagrange<1>()); f(makeBasis(gv,power(restrict(power<2>(lagrange<1>(),flatInterleaved()),A),2,blockedLexicographic())),T{t,t,t,t}); break; } }
}
constexpr int nBases=8;
template<class B> void layout(const B& b,const std::vector<Table>& t,const SD& A){
  for(auto& x: t) for(size_t e=0;e<x.size();e++) (void)e;
  auto dofs=Trees::collect(b,[&](auto& node,size_t pos,const auto& e)->std::vector<size_t> { if(!t[pos][e.e_].empty()){ CHECK(node.element()==e,"node is bound to the element"); CHECK(node.finiteElement().type()==e.type() && node.finiteElement().size()==node.size(),"finite element of the element"); } return t[pos][e.e_]; });
  Trees::indicesInTree(b,dofs); Trees::contiguous(b,dofs,true);
  std::vector<std::array<size_t,2>> u; for(auto& d: dofs){ bool n=true; for(auto& x: u) n&= !(x[0]==d.leaf && x[1]==d.idx); if(n) u.push_back({d.leaf,d.idx}); } CHECK(b.dimension()==u.size(),"dimension() counts the degrees of freedom of the subdomain"); }
template<class LV> void same(const LV& x,const LV& y){ CHECK(x.size()==y.size() && x.bound() && y.bound(),"size"); if(x.size()!=y.size()) return; for(size_t i=0;i<x.size();i++) CHECK(x.index(i)==y.index(i),"indices after any history are those of a fresh local view");
  std::vector<std::array<size_t,2>> nx,ny; TypeTree::forEachNode(x.tree(),[&](auto& n,const auto&){ nx.push_back({n.size(), n.size()? n.localIndex(0):0}); }); TypeTree::forEachNode(y.tree(),[&](auto& n,const auto&){ ny.push_back({n.size(), n.size()? n.localIndex(0):0}); }); CHECK(nx==ny,"node sizes and offsets"); }
extern "C" void harness(){
  Grd g; Mock::strip(g,VPART==1 && VDIM<3 ? 2:0); g.finalize(); size_t n=g.el.size(); auto gv=g.leafGridView(); SD A(gv),B(gv);
#if VPART==2 || VPART==4
  int ms[]={6,1,9}; unsigned m=ms[symPick("A",0,2)];
#else
  unsigned m=symPick("A",0,(1<<n)-1);
#endif
  unsigned mb= symPick("B",0,VPART==1?1:0) ? 0x5 : (~m|2); for(size_t e=0;e<n;e++){ if(m>>e&1) A.insertElement(g.entity(e)); if(mb>>(n-1-e)&1) B.insertElement(g.entity(n-1-e)); }
  int k=symPick("basis",0,nBases-1);
#if VPART==1
  withBasis(k,g,A,B,[&](const auto& b,const auto& t){ layout(b,t,A); });
#elif VPART==2
  withBasis(k,g,A,B,[&](const auto& b,const auto&){ auto lv=b.localView(); auto other=b.localView(); for(int s=0;s<3;s++){ int e=symPick("element",0,n-1); lv.bind(g.entity(e)); auto fresh=b.localView(); fresh.bind(g.entity(e)); same(lv,fresh); if(s==1){ auto copy=lv; same(copy,fresh); copy.bind(g.entity((e+1)%n)); same(lv,fresh); other=copy; auto f2=b.localView(); f2.bind(g.entity((e+1)%n)); same(other,f2); } } });
#elif VPART==3
  withBasis(k,g,A,B,[&](auto b,const auto&){ int e=symPick("more",0,n-1); A.insertElement(g.entity(e)); B.insertElement(g.entity((e+1)%n)); b.update(gv);
    withBasis(k,g,A,B,[&](const auto& f,const auto& t){ if constexpr(std::is_same_v<std::decay_t<decltype(b)>,std::decay_t<decltype(f)>>){ layout(b,t,A); CHECK(b.size()==f.size() && b.dimension()==f.dimension(),"size"); auto x=b.localView(),y=f.localView(); CHECK(x.maxSize()==y.maxSize(),"maximal local size"); for(auto el: elements(gv)){ x.bind(el); y.bind(el); same(x,y); } } }); });
#else
  // functions: interpolation touches the subdomain only, evaluation outside is zero
  withBasis(k,g,A,B,[&](const auto& b,const auto& t){ if constexpr(requires{ b.localView().tree().finiteElement(); }) if(t.size()==1){ std::vector<double> v(b.size()); for(auto& x: v) x=symReal("c",-1,1); auto d=makeDiscreteGlobalBasisFunction<double>(b,v); auto ld=localFunction(d); double s=symReal("s",0,1), r=symReal("r",0,1); ASSUME(s+r<=1); FieldVector<double,2> p{s,r};
      for(int q=0;q<2;q++){ int e=symPick("element",0,n-1); ld.bind(g.entity(e)); double y=ld(p); if(!(m>>e&1)) CHECK_EQ(y,0,"a function of a restricted basis vanishes outside of the subdomain"); else { auto lv=b.localView(); lv.bind(g.entity(e)); std::vector<FieldVector<double,1>> phi; lv.tree().finiteElement().localBasis().evaluateFunction(p,phi); double z=0; for(size_t i=0;i<phi.size();i++) z+=phi[i][0]*v[t[0][e][i]]; CHECK_EQ(y,z,"value inside of the subdomain"); } }
      std::vector<double> w; interpolate(b,w,[](const auto&){ return 3.0; }); CHECK(w.size()==b.size(),"interpolation sizes the vector"); for(double x: w) CHECK_EQ(x,3.0,"all coefficients of the subdomain are interpolated"); } });
#endif
  REACH("end");
}
