// TITLE: multi-indices of composite/power/dynamic-power trees are unique, contiguous and consistent with sizes
// BOUNDS: 16 tree shapes of depth <=3 with up to 3 leaf spaces; dynamic degree 1..3; leaf dimensions 0..2 (thorough 0..3) exhaustively with arbitrary local-to-global maps on one or two elements, and leaf dimension any value up to 2^10 (flat-lexicographic powers: up to 15) with two arbitrary indices per leaf; every combination of power strategy, composite strategy and inner power strategy
// CASE: fi_fl_fi -DVSP=FlatInterleaved -DVSC=FlatLexicographic -DVSI=FlatInterleaved
// CASE: fl_fl_fl -DVSP=FlatLexicographic -DVSC=FlatLexicographic -DVSI=FlatLexicographic
// CASE-THOROUGH: bi_fl_fi -DVSP=BlockedInterleaved -DVSC=FlatLexicographic -DVSI=FlatInterleaved
// CASE-THOROUGH: bl_fl_fl -DVSP=BlockedLexicographic -DVSC=FlatLexicographic -DVSI=FlatLexicographic
// CASE: fi_bl_bi -DVSP=FlatInterleaved -DVSC=BlockedLexicographic -DVSI=BlockedInterleaved
// CASE: fl_bl_bl -DVSP=FlatLexicographic -DVSC=BlockedLexicographic -DVSI=BlockedLexicographic
// CASE: bi_bl_bi -DVSP=BlockedInterleaved -DVSC=BlockedLexicographic -DVSI=BlockedInterleaved
// CASE: bl_bl_bl -DVSP=BlockedLexicographic -DVSC=BlockedLexicographic -DVSI=BlockedLexicographic
// CASE: bi_bl_fl -DVSP=BlockedInterleaved -DVSC=BlockedLexicographic -DVSI=FlatLexicographic
// CASE: bl_bl_fi -DVSP=BlockedLexicographic -DVSC=BlockedLexicographic -DVSI=FlatInterleaved
// CASE: fi_fl_bl -DVSP=FlatInterleaved -DVSC=FlatLexicographic -DVSI=BlockedLexicographic
// CASE: fl_fl_bi -DVSP=FlatLexicographic -DVSC=FlatLexicographic -DVSI=BlockedInterleaved
#include "treelist.hh"
using namespace Trees;
extern "C" void harness(){
  int t=symPick("tree",0,nTrees-1); int mode=symPick("mode",0,1); size_t n= dynamicDegree(t)?symPick("degree",1,VERIF_THOROUGH?3:2):1;
  G g; int nelem=symPick("elements",1,2); line(g,nelem);
  bool empties=false; int leaves= leavesOf(t);
  for(int i=0;i<leaves;i++) if(mode==0) { size_t d=symPick("dim",0,VERIF_THOROUGH?3:2); empties|=d==0; fullLeaf(i,d,nelem); } else wideLeaf(i,std::is_same_v<VSP,FlatLexicographic>?15:(1<<10),nelem,nelem==1?2:1);
  withTree<VSP,VSC,VSI>(t,n,[&](auto factory){
    auto b=makeBasis(g.leafGridView(),factory); auto dofs=collect(b); indicesInTree(b,dofs); if(mode==0) contiguous(b,dofs,empties); else {
      // dimension is the sum over the leaves of the tree
      size_t s=0; auto lv=b.localView(); Dune::TypeTree::forEachLeafNode(lv.tree(),[&](auto& node,const auto&){ s+=leafData[std::decay_t<decltype(node)>::leafId].dim; }); CHECK(s==b.dimension(),"dimension() is the number of degrees of freedom of all leaves"); } });
  REACH("end");
}
