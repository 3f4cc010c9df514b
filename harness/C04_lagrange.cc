// TITLE: Lagrange indices agree exactly at coinciding nodes for every orientation and vertex order
// BOUNDS: two elements sharing a facet (line, triangle, quadrilateral, triangle/quadrilateral, tetrahedron, hexahedron, prism and pyramid pairs), every orientation of the second element (thorough: of both), every order of the global vertex ids (quick tier, quadrilaterals/tetrahedra/hexahedra: of the ids on the shared facet); run-time orders 1..5 in 1d/2d (thorough 7), 1..4 for tetrahedra (thorough 6), 1..3 for hexahedra (thorough 4), 1..2 for prisms and pyramids; compile-time order 3
// ASSUME: grid replaced by the mock grid of /verif/harness/mockgrid.hh; vertex coordinates concrete (node coincidence is combinatorial)
// CASE: line -DVDIM=1 -DVMESH=Line2 -DVK=5 -DVKT=7
// CASE: tri -DVDIM=2 -DVMESH=Tri2 -DVK=5 -DVKT=7
// CASE: quad -DVDIM=2 -DVMESH=Quad2 -DVSHARED=1 -DVK=4 -DVKT=6
// CASE: triquad -DVDIM=2 -DVMESH=TriQuad -DVK=4 -DVKT=6
// CASE: tri_static -DVDIM=2 -DVMESH=Tri2 -DVKS=3 -DVSINGLE=1
// CASE: quad_static -DVDIM=2 -DVMESH=Quad2 -DVSHARED=2 -DVKS=3 -DVSINGLE=4
// CASE: tet4 -DVDIM=3 -DVMESH=Tet2 -DVSHARED=1 -DVKMIN=1 -DVK=4 -DVKT=4
// CASE: tet5 -DVDIM=3 -DVMESH=Tet2 -DVSHARED=1 -DVKMIN=5 -DVK=5 -DVKT=6
// CASE: hex -DVDIM=3 -DVMESH=Hex2 -DVSHARED=2 -DVKMIN=3 -DVK=3 -DVKT=4
// CASE-THOROUGH: hex12 -DVDIM=3 -DVMESH=Hex2 -DVSHARED=2 -DVK=2 -DVKT=2
// CASE: prism_q -DVDIM=3 -DVMESH=Prism2q -DVK=2 -DVKT=2
// CASE: prism_t -DVDIM=3 -DVMESH=Prism2t -DVK=2 -DVKT=2
// CASE: hexpyr -DVDIM=3 -DVMESH=HexPyr -DVK=2 -DVKT=2
// CASE: hexprism -DVDIM=3 -DVMESH=HexPrism -DVK=2 -DVKT=2
// CASE: tetprism -DVDIM=3 -DVMESH=TetPrism -DVK=2 -DVKT=2
// CASE: tetpyr -DVDIM=3 -DVMESH=TetPyr -DVK=2 -DVKT=2
// CASE: prismpyr -DVDIM=3 -DVMESH=PrismPyr -DVK=2 -DVKT=2
#include <config.h>
#include "sym.h"
#include "meshes.hh"
#include "basis_checks.hh"
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#ifndef VSINGLE
#define VSINGLE 0
#endif
#ifndef VKMIN
#define VKMIN 1
#endif
using namespace Dune; using namespace Dune::Functions;
extern "C" void harness(){
  Mock::Grid<VDIM,VDIM,VSINGLE> g; 
#ifdef VKS
  Mock::addMesh(g,Mock::VMESH,3);
#else
  unsigned k=symPick("order",VKMIN,VERIF_THOROUGH?VKT:VK);
  Mock::addMesh(g,Mock::VMESH,VERIF_THOROUGH?3:2);
#endif
#ifdef VSHARED
  if(VERIF_THOROUGH && VSHARED==1) Mock::symbolicIds(g); else Mock::symbolicSharedIds(g);
#else
  Mock::symbolicIds(g);
#endif
  g.finalize();
  auto gv=g.leafGridView(); using namespace BasisFactory;
#ifdef VKS
  auto b=makeBasis(gv,lagrange<VKS>());
#else
  auto b=makeBasis(gv,lagrange(k));
#endif
  Oracle::nodesMatch(b);
  size_t n=b.size(); for(auto e: elements(gv)){ auto lv=b.localView(); lv.bind(e); for(size_t i=0;i<lv.size();i++) CHECK(lv.index(i)[0]<n,"index in range"); }
  REACH("end");
}
