// TITLE: Taylor-Hood and composed Lagrange bases: unique, contiguous indices consistent with the sizes; update() like fresh construction
// BOUNDS: triangle+quadrilateral (2D), tetrahedron+pyramid (3D) or two lines, arbitrary vertex/edge numbering; update from a one-element grid
// ASSUME: grid replaced by the mock grid of /verif/harness/mockgrid.hh
// CASE: th_2d -DVF=0 -DVDIM=2 -DVMESH=TriQuad -DVMESH1=Tri1
// CASE: thhi_2d -DVF=1 -DVDIM=2 -DVMESH=TriQuad -DVMESH1=Quad1
// CASE: th_1d -DVF=0 -DVDIM=1 -DVMESH=Line2 -DVMESH1=Line1
// CASE: thhi_3d -DVF=1 -DVDIM=3 -DVMESH=TetPyr -DVMESH1=Tet1
// CASE: comp_2d -DVF=2 -DVDIM=2 -DVMESH=TriQuad -DVMESH1=Tri1
// CASE: compflat_2d -DVF=3 -DVDIM=2 -DVMESH=TriQuad -DVMESH1=Tri1
#include "trees.hh"
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/taylorhoodbasis.hh>
using namespace Dune; using namespace Dune::Functions; using namespace Dune::Functions::BasisFactory;
template<class GV> auto make(const GV& gv){
#if VF==0
  return makeBasis(gv,taylorHood());
#elif VF==1
  return DefaultGlobalBasis<TaylorHoodPreBasis<GV,true>>(gv);
#elif VF==2
  return makeBasis(gv,composite(power<VDIM>(lagrange<2>(),blockedInterleaved()),lagrange<1>(),blockedLexicographic()));
#else
  return makeBasis(gv,composite(power<VDIM>(lagrange<2>(),flatLexicographic()),lagrange<1>(),flatLexicographic()));
#endif
}
template<class B> void oracle(const B& b){
  auto gv=b.gridView(); auto b2=makeBasis(gv,lagrange<2>()); auto b1=makeBasis(gv,lagrange<1>()); auto l2=b2.localView(); auto l1=b1.localView();
  auto dofs=Trees::collect(b,[&](auto& node,std::size_t pos,const auto& e){ std::vector<std::size_t> r; if(pos<VDIM){ l2.bind(e); for(std::size_t i=0;i<l2.size();i++) r.push_back(l2.index(i)[0]); } else { l1.bind(e); for(std::size_t i=0;i<l1.size();i++) r.push_back(l1.index(i)[0]); } return r; });
  Trees::indicesInTree(b,dofs); Trees::contiguous(b,dofs);
  CHECK(b.dimension()==VDIM*b2.dimension()+b1.dimension(),"dimension is the sum over the leaves");
}
extern "C" void harness(){
  Mock::Grid<VDIM,VDIM,0> g,h; Mock::addMesh(g,Mock::VMESH,0); g.finalize(); Mock::addMesh(h,Mock::VMESH1,0); h.finalize();
  if(symPick("mode",0,1)==0){
    if(VDIM<3) Mock::symbolicIndices(g,GeometryTypes::vertex); else Mock::symbolicNumbering(g,GeometryTypes::quadrilateral);
    auto b=make(g.leafGridView()); oracle(b); }
  else { auto b=make(h.leafGridView()); b.update(g.leafGridView()); CHECK(b.gridView()==g.leafGridView(),"gridView() is the grid view passed to update()"); oracle(b); b.update(h.leafGridView()); oracle(b); }
  REACH("end");
}
