// TITLE: DOF layout of every leaf basis matches its local finite element; update() behaves like fresh construction
// BOUNDS: two elements sharing a facet (all supported element types incl. mixed), arbitrary orientation of the second element, arbitrary entity numbering (symbolic permutation per geometry type of codim>=1, thorough all codims), arbitrary vertex ids; orders as listed in the case names; update from a one-element grid to a two-element grid and back
// ASSUME: grid replaced by the mock grid of /verif/harness/mockgrid.hh
// CASE: p1_triquad -DVB=lagrange -DVK=1 -DVDIM=2 -DVMESH=TriQuad -DVMESH1=Tri1
// CASE: p2_triquad -DVB=lagrange -DVK=2 -DVDIM=2 -DVMESH=TriQuad -DVMESH1=Quad1
// CASE: p0_triquad -DVB=lagrange -DVK=0 -DVDIM=2 -DVMESH=TriQuad -DVMESH1=Quad1
// CASE: p3_tri -DVB=lagrange -DVK=3 -DVDIM=2 -DVMESH=Tri2 -DVMESH1=Tri1 -DVSINGLE=1
// CASE: pdyn_tri -DVB=lagrange -DVKDYN=order -DVKMAX=4 -DVDIM=2 -DVMESH=Tri2 -DVMESH1=Tri1
// CASE: p3_line -DVB=lagrange -DVK=3 -DVDIM=1 -DVMESH=Line2 -DVMESH1=Line1
// CASE: p2_tet -DVB=lagrange -DVK=2 -DVDIM=3 -DVMESH=Tet2 -DVMESH1=Tet1
// CASE: p2_hexprism -DVB=lagrange -DVK=2 -DVDIM=3 -DVMESH=HexPrism -DVMESH1=Hex1 -DVFEW=1
// CASE: p2_tetpyr -DVB=lagrange -DVK=2 -DVDIM=3 -DVMESH=TetPyr -DVMESH1=Pyr1 -DVFEW=1
// CASE: dg2_triquad -DVB=lagrangeDG -DVK=2 -DVDIM=2 -DVMESH=TriQuad -DVMESH1=Tri1
// CASE: dgdyn_triquad -DVB=lagrangeDG -DVKDYN=order -DVKMAX=3 -DVDIM=2 -DVMESH=TriQuad -DVMESH1=Tri1
// CASE: dg2_hexpyr -DVB=lagrangeDG -DVK=2 -DVDIM=3 -DVMESH=HexPyr -DVMESH1=Hex1 -DVFEW=1
// CASE: dg1_tetprism -DVB=lagrangeDG -DVK=1 -DVDIM=3 -DVMESH=TetPrism -DVMESH1=Tet1 -DVFEW=1
// CASE: ref0_tri -DVB=refined -DVK=0 -DVDIM=2 -DVMESH=Tri2 -DVMESH1=Tri1
// CASE: ref1_tri -DVB=refined -DVK=1 -DVDIM=2 -DVMESH=Tri2 -DVMESH1=Tri1
// CASE: ref1_tet -DVB=refined -DVK=1 -DVDIM=3 -DVMESH=Tet2 -DVMESH1=Tet1
// CASE: h2_tri -DVB=hierarchical -DVK=2 -DVDIM=2 -DVMESH=Tri2 -DVMESH1=Tri1
// CASE: h1_tet -DVB=hierarchical -DVK=1 -DVDIM=3 -DVMESH=Tet2 -DVMESH1=Tet1
// CASE: hb1_tri -DVB=hbubble -DVK=1 -DVDIM=2 -DVMESH=Tri2 -DVMESH1=Tri1
// CASE: hb2_tri -DVB=hbubble -DVK=2 -DVDIM=2 -DVMESH=Tri2 -DVMESH1=Tri1
// CASE: hb2_tet -DVB=hbubble -DVK=2 -DVDIM=3 -DVMESH=Tet2 -DVMESH1=Tet1
// CASE: ra_triquad -DVB=rannacher -DVDIM=2 -DVMESH=TriQuad -DVMESH1=Tri1
// CASE: ra_tet -DVB=rannacher -DVDIM=3 -DVMESH=Tet2 -DVMESH1=Tet1 -DVSINGLE=1
// CASE: ra_hex -DVB=rannacher -DVDIM=3 -DVMESH=Hex2 -DVMESH1=Hex1 -DVSINGLE=8 -DVFEW=1
// CASE: rt0_triquad -DVB=rt -DVK=0 -DVDIM=2 -DVMESH=TriQuad -DVMESH1=Quad1
// CASE: rt1_tri -DVB=rt -DVK=1 -DVDIM=2 -DVMESH=Tri2 -DVMESH1=Tri1 -DVSINGLE=1
// CASE: rt1_quad -DVB=rt -DVK=1 -DVDIM=2 -DVMESH=Quad2 -DVMESH1=Quad1 -DVSINGLE=4 -DVFEW=1
// CASE: rt2_quad -DVB=rt -DVK=2 -DVDIM=2 -DVMESH=Quad2 -DVMESH1=Quad1 -DVSINGLE=4 -DVFEW=1
// CASE: rt0_tet -DVB=rt -DVK=0 -DVDIM=3 -DVMESH=Tet2 -DVMESH1=Tet1 -DVSINGLE=1
// CASE: rt0_hexpyr -DVB=rt -DVK=0 -DVDIM=3 -DVMESH=HexPyr -DVMESH1=Hex1 -DVFEW=1
// CASE: rt0_tetprism -DVB=rt -DVK=0 -DVDIM=3 -DVMESH=TetPrism -DVMESH1=Tet1 -DVFEW=1
// CASE: rt1_hex -DVB=rt -DVK=1 -DVDIM=3 -DVMESH=Hex2 -DVMESH1=Hex1 -DVSINGLE=8 -DVFEW=1 -DVEITHER=1
// CASE: bdm1_tri -DVB=bdm -DVK=1 -DVDIM=2 -DVMESH=Tri2 -DVMESH1=Tri1
// CASE: bdm1_quad -DVB=bdm -DVK=1 -DVDIM=2 -DVMESH=Quad2 -DVMESH1=Quad1 -DVFEW=1
// CASE: bdm2_tri -DVB=bdm -DVK=2 -DVDIM=2 -DVMESH=Tri2 -DVMESH1=Tri1
// CASE: bdm2_quad -DVB=bdm -DVK=2 -DVDIM=2 -DVMESH=Quad2 -DVMESH1=Quad1 -DVFEW=1
// CASE: ned_triquad -DVB=nedelec -DVDIM=2 -DVMESH=TriQuad -DVMESH1=Quad1
// CASE: ned_tet -DVB=nedelec -DVDIM=3 -DVMESH=Tet2 -DVMESH1=Tet1 -DVSINGLE=1 -DVFEW=1
// CASE: morley -DVB=morley -DVDIM=2 -DVMESH=Tri2 -DVMESH1=Tri1 -DVSINGLE=1
// CASE: hermite1 -DVB=hermite -DVDIM=1 -DVMESH=Line2 -DVMESH1=Line1 -DVSINGLE=1
// CASE: hermite2 -DVB=hermite -DVDIM=2 -DVMESH=Tri2 -DVMESH1=Tri1 -DVSINGLE=1
// CASE-THOROUGH: hermite3 -DVB=hermite -DVDIM=3 -DVMESH=Tet2 -DVMESH1=Tet1 -DVSINGLE=1 -DVFEW=1 -DVEITHER=1
// CASE: rhermite2 -DVB=reducedhermite -DVDIM=2 -DVMESH=Tri2 -DVMESH1=Tri1 -DVSINGLE=1
// CASE: argyris -DVB=argyris -DVDIM=2 -DVMESH=Tri2 -DVMESH1=Tri1 -DVSINGLE=1 -DVFEW=1 -DVEITHER=1
#include "leafbases.hh"
#include <optional>
using namespace Dune; using namespace Dune::Functions;
template<class G> void number(G& g,int which){
#ifdef VFEW
  // one geometry type at a time gets an arbitrary numbering
  int n=0; for(int c=1;c<=VDIM;c++){ auto ts=g.views[0].is.types_[c]; for(auto t: ts) if(n++==which) Mock::symbolicIndices(g,t); }
#else
  (void)which; Mock::symbolicIndicesAll(g,VERIF_THOROUGH?0:1);
#endif
}
extern "C" void harness(){
  Mock::Grid<VDIM,VDIM,VSINGLE> g,h;
#ifdef VKDYN
  unsigned order=symPick("order",0,VKMAX);
#endif
  unsigned mode=symPick("mode",0,2);
  
#ifdef VEITHER  // arbitrary orientation or arbitrary numbering
  unsigned either=VERIF_THOROUGH?2:symPick("either",0,1);
#else
  unsigned either=2;
#endif
  Mock::addMesh(g,Mock::VMESH,mode==0&&either!=1?2:0); g.finalize();
  Mock::addMesh(h,Mock::VMESH1,0); h.finalize();
  using namespace BasisFactory;
  if(mode==0){        // layout
    if(either!=0){
#ifdef VFEW
    number(g,symPick("type",0,3));
#else
    number(g,0);
#endif
    }
    auto b=makeBasis(g.leafGridView(),VBASIS); Oracle::leafLayout(b,g,VBID!=2);
  } else if(mode==1){ // update
    auto b=makeBasis(h.leafGridView(),VBASIS); b.update(g.leafGridView()); auto c=makeBasis(g.leafGridView(),VBASIS);
    Oracle::sameIndices(b,c); Oracle::leafLayout(b,g,VBID!=2);
    b.update(h.leafGridView()); auto d=makeBasis(h.leafGridView(),VBASIS); Oracle::sameIndices(b,d); Oracle::leafLayout(b,h,VBID!=2);
  } else {            // copies are independent of the original
    auto c=makeBasis(g.leafGridView(),VBASIS);
    using B=decltype(c); std::optional<B> o(makeBasis(g.leafGridView(),VBASIS)); B d(*o); B e(std::move(*o)); o.reset();
    Oracle::sameIndices(d,c); Oracle::sameIndices(e,c);
  }
  REACH("end");
}
