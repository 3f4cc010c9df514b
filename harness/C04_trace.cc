// TITLE: continuous scalar bases have matching traces on shared facets
// BOUNDS: two elements sharing a facet, every orientation of both elements in 2d (3d: of the second), every order of the vertex ids, every point of the shared facet (symbolic real); arbitrary entity numbering kept symbolic is covered by C05
// CASE: p2_tri -DVB=lagrange -DVK=2 -DVDIM=2 -DVMESH=Tri2
// CASE: p3_tri -DVB=lagrange -DVK=3 -DVDIM=2 -DVMESH=Tri2
// CASE: p2_triquad -DVB=lagrange -DVK=2 -DVDIM=2 -DVMESH=TriQuad
// CASE: h1_tri -DVB=hierarchical -DVK=1 -DVDIM=2 -DVMESH=Tri2
// CASE: h2_tri -DVB=hierarchical -DVK=2 -DVDIM=2 -DVMESH=Tri2
// CASE: h2_tet -DVB=hierarchical -DVK=2 -DVDIM=3 -DVMESH=Tet2
// CASE: h2_line -DVB=hierarchical -DVK=2 -DVDIM=1 -DVMESH=Line2
// CASE: hb1_tri -DVB=hbubble -DVK=1 -DVDIM=2 -DVMESH=Tri2
// CASE: hb2_tri -DVB=hbubble -DVK=2 -DVDIM=2 -DVMESH=Tri2
// CASE: hb2_tet -DVB=hbubble -DVK=2 -DVDIM=3 -DVMESH=Tet2
// CASE: ref1_tri -DVB=refined -DVK=1 -DVDIM=2 -DVMESH=Tri2
// CASE: ref1_tet -DVB=refined -DVK=1 -DVDIM=3 -DVMESH=Tet2
// CASE: ref1_line -DVB=refined -DVK=1 -DVDIM=1 -DVMESH=Line2
#include "leafbases.hh"
using namespace Dune; using namespace Dune::Functions;
extern "C" void harness(){
  Mock::Grid<VDIM,VDIM,VSINGLE> g; Mock::addMesh(g,Mock::VMESH,(VDIM<3||VERIF_THOROUGH)?3:2); Mock::symbolicSharedIds(g); g.finalize();
  using namespace BasisFactory; auto b=makeBasis(g.leafGridView(),VBASIS);
#if VBID==3 || VBID==1
  Oracle::nodesMatch(b);
#endif
#if VBID!=3
  FieldVector<double,VDIM-1> s; double t=1; for(int k=0;k<VDIM-1;k++){ s[k]=symReal("s",0,1); t-=s[k]; } if(VDIM==3) ASSUME(t>=0);
  Oracle::tracesMatch(b,s);
#endif
  REACH("end");
}
