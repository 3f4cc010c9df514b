// TITLE: DOFs reported for a sub-entity, an intersection and the boundary are exactly those attached to its closure
// BOUNDS: pairs of elements sharing a facet (all element types, mixed pairs), arbitrary orientation of one element, arbitrary vertex numbering where stated; every sub-entity of every codimension; trees composite/power/dynamic power of Lagrange (orders 0..4), DG, Raviart-Thomas, Rannacher-Turek and Hermite/Argyris bases; subspace bases; re-binding histories of 2 bindings; all three callback signatures of forEachBoundaryDOF and subspace bases
// ASSUME: grid replaced by the mock grid of /verif/harness/mockgrid.hh
// CASE: triquad_p3 -DVB=lagrange -DVK=3 -DVDIM=2 -DVMESH=TriQuad
// CASE-THOROUGH: triquad_p0 -DVB=lagrange -DVK=0 -DVDIM=2 -DVMESH=TriQuad
// CASE: line_p2 -DVB=lagrange -DVK=2 -DVDIM=1 -DVMESH=Line2
// CASE: tri_dyn -DVB=lagrange -DVKDYN=4 -DVDIM=2 -DVMESH=Tri2
// CASE: tet_p3 -DVB=lagrange -DVK=3 -DVDIM=3 -DVMESH=Tet2
// CASE: hexprism_p2 -DVB=lagrange -DVK=2 -DVDIM=3 -DVMESH=HexPrism
// CASE-THOROUGH: hexpyr_p2 -DVB=lagrange -DVK=2 -DVDIM=3 -DVMESH=HexPyr
// CASE-THOROUGH: tetpyr_p1 -DVB=lagrange -DVK=1 -DVDIM=3 -DVMESH=TetPyr
// CASE-THOROUGH: tetprism_dg1 -DVB=lagrangeDG -DVK=1 -DVDIM=3 -DVMESH=TetPrism
// CASE-THOROUGH: triquad_dg2 -DVB=lagrangeDG -DVK=2 -DVDIM=2 -DVMESH=TriQuad
// CASE-THOROUGH: triquad_rt0 -DVB=rt -DVK=0 -DVDIM=2 -DVMESH=TriQuad
// CASE-THOROUGH: tri_rt1 -DVB=rt -DVK=1 -DVDIM=2 -DVMESH=Tri2 -DVSINGLE=1
// CASE: hex_rt1 -DVB=rt -DVK=1 -DVDIM=3 -DVMESH=Hex2 -DVSINGLE=8
// CASE-THOROUGH: quad_ra -DVB=rannacher -DVDIM=2 -DVMESH=Quad2
// CASE-THOROUGH: tri_hb2 -DVB=hbubble -DVK=2 -DVDIM=2 -DVMESH=Tri2
// CASE-THOROUGH: tri_hermite -DVB=hermite -DVDIM=2 -DVMESH=Tri2 -DVSINGLE=1
// CASE-THOROUGH: tri_argyris -DVB=argyris -DVDIM=2 -DVMESH=Tri2 -DVSINGLE=1
// CASE: tet_ned -DVB=nedelec -DVDIM=3 -DVMESH=Tet2 -DVSINGLE=1
// CASE-THOROUGH: tri_ref1 -DVB=refined -DVK=1 -DVDIM=2 -DVMESH=Tri2
#include "leafbases.hh"
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/dynamicpowerbasis.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
#include <dune/functions/functionspacebases/subentitydofs.hh>
#include <dune/functions/functionspacebases/boundarydofs.hh>
using namespace Dune; using namespace Dune::Functions;
using G=Mock::Grid<VDIM,VDIM,VSINGLE>;
// vertices of sub-entity (i,c) of element e as a set of grid vertices
template<class G> std::vector<int> verts(const G& g,int e,int i,int c){ auto re=ReferenceElements<double,VDIM>::general(g.el[e].gt); std::vector<int> r; for(int k=0;k<re.size(i,c,VDIM);k++) r.push_back(g.el[e].v[re.subEntity(i,c,k,VDIM)]); return r; }
inline bool subset(const std::vector<int>& a,const std::vector<int>& b){ for(int x: a){ bool f=false; for(int y: b) f|= x==y; if(!f) return false; } return true; }
// is the local degree of freedom (node, j) attached to the closure of the sub-entity with vertex set V?
template<class LV> std::vector<char> attached(const G& g,const LV& lv,const std::vector<int>& V){ std::vector<char> r(lv.size(),0); int e=lv.element().e_;
  TypeTree::forEachLeafNode(lv.tree(),[&](const auto& node,const auto&){ if(node.size()==0) return; const auto& lc=node.finiteElement().localCoefficients(); for(size_t j=0;j<node.size();j++){ auto k=lc.localKey(j); if(subset(verts(g,e,k.subEntity(),k.codim()),V)) r[node.localIndex(j)]=1; } }); return r; }
template<class S> void compare(const S& s,const std::vector<char>& expect){
  std::vector<int> seen(expect.size(),0); size_t n=0; for(auto i: s){ CHECK(i<expect.size(),"reported local index exists"); if(i<expect.size()) seen[i]++; n++; }
  CHECK(n==s.size(),"size() is the length of the range"); for(size_t k=0;k<n;k++){ size_t i=s[k]; (void)i; CHECK(i<expect.size() && expect[i],"entry of the range is attached"); }
  for(size_t i=0;i<expect.size();i++){ CHECK(seen[i]==(expect[i]?1:0),"exactly the attached degrees of freedom are reported, each once"); CHECK(s.contains(i)==bool(expect[i]),"contains() agrees with the range"); } }
template<class B> void sub(const G& g,const B& b){
  auto lv=b.localView(); auto s=subEntityDOFs(b);
  for(int round=0;round<2;round++){ int e=symPick("element",0,1); lv.bind(g.entity(e)); auto re=ReferenceElements<double,VDIM>::general(g.el[e].gt); int c=symPick("codim",0,VDIM); int i=symPick("sub",0,7+5*(VDIM==3)); if(i>=re.size(c)) return;
    auto ex=attached(g,lv,verts(g,e,i,c)); compare(s.bind(lv,i,c),ex); compare(subEntityDOFs(lv,i,c),ex); compare(s,ex); if(round==0 && VERIF_THOROUGH==0 && c!=1) break; } }
template<class B> void inter(const G& g,const B& b){
  auto lv=b.localView(); auto s=subEntityDOFs(lv);
  for(auto e: elements(b.gridView())){ lv.bind(e); for(auto is: intersections(b.gridView(),e)){ auto ex=attached(g,lv,verts(g,e.e_,is.indexInInside(),1)); compare(s.bind(lv,is),ex); compare(subEntityDOFs(lv,is),ex); } } }
template<class B> void boundary(const G& g,const B& b){
  // global indices attached to the closure of boundary facets, by definition
  std::vector<std::vector<size_t>> want,got; auto has=[](auto& l,const auto& m){ for(auto& x: l){ bool eq=x.size()==m.size(); for(size_t k=0;eq&&k<m.size();k++) eq= x[k]==m[k]; if(eq) return true; } return false; };
  auto vec=[](const auto& m){ std::vector<size_t> v; for(size_t k=0;k<m.size();k++) v.push_back(m[k]); return v; };
  std::vector<std::array<size_t,2>> locals; auto lv=b.localView();
  for(auto e: elements(b.gridView())){ lv.bind(e); auto re=ReferenceElements<double,VDIM>::general(e.type()); std::vector<char> any(lv.size(),0);
    for(int f=0;f<re.size(1);f++){ bool bd=true; for(size_t o=0;o<g.el.size();o++) if(int(o)!=e.e_) bd&= !subset(verts(g,e.e_,f,1),g.el[o].v); if(bd){ auto a=attached(g,lv,verts(g,e.e_,f,1)); for(size_t i=0;i<a.size();i++) any[i]|=a[i]; } }
    for(size_t i=0;i<any.size();i++) if(any[i]){ locals.push_back({size_t(e.e_),i}); auto v=vec(lv.index(i)); if(!has(want,v)) want.push_back(v); } }
  forEachBoundaryDOF(b,[&](const auto& mi){ auto v=vec(mi); CHECK(has(want,v),"only degrees of freedom on the boundary are visited"); if(!has(got,v)) got.push_back(v); });
  CHECK(got.size()==want.size(),"every boundary degree of freedom is visited");
  std::vector<char> hit(locals.size(),0);
  forEachBoundaryDOF(b,[&](auto li,const auto& v){ bool f=false; for(size_t k=0;k<locals.size();k++) if(locals[k][0]==size_t(v.element().e_) && locals[k][1]==size_t(li)){ f=true; hit[k]|=1; } CHECK(f,"visited local index is on the boundary"); });
  forEachBoundaryDOF(b,[&](auto li,const auto& v,const auto& is){ CHECK(is.boundary() && is.inside()==v.element(),"intersection is a boundary intersection of the element"); auto a=attached(g,v,verts(g,v.element().e_,is.indexInInside(),1)); CHECK(a[li],"local index is attached to the intersection"); for(size_t k=0;k<locals.size();k++) if(locals[k][0]==size_t(v.element().e_) && locals[k][1]==size_t(li)) hit[k]|=2; });
  for(char h: hit) CHECK(h==3,"every local index on a boundary facet is visited"); }
extern "C" void harness(){
  G g; Mock::addMesh(g,Mock::VMESH,VDIM==3?0:2); g.finalize(); auto gv=g.leafGridView(); using namespace BasisFactory;
  int what=symPick("what",0,2);
  auto all=[&](const auto& b){ if(what==0) sub(g,b); else if(what==1) inter(g,b); else boundary(g,b); };
  switch(symPick("tree",0,4)){
    case 0: all(makeBasis(gv,VBASIS)); break;
    case 1: all(makeBasis(gv,composite(power<2>(lagrange<1>(),flatInterleaved()),VBASIS,blockedLexicographic()))); break;
    case 2: all(makeBasis(gv,power(VBASIS,3,blockedLexicographic()))); break;
    case 3: { auto b=makeBasis(gv,composite(power<2>(lagrange<1>(),blockedInterleaved()),VBASIS,blockedLexicographic())); all(subspaceBasis(b,Indices::_1)); break; }
    case 4: { auto b=makeBasis(gv,composite(power<2>(lagrange<2>(),blockedInterleaved()),VBASIS,blockedLexicographic())); all(subspaceBasis(b,Indices::_0,1)); break; } }
  REACH("end");
}
