// TITLE: container descriptors describe exactly the multi-index tree; containers made from them match it
// BOUNDS: 16 tree shapes of depth <=3 with up to 3 leaf spaces, dynamic degree 1..2 (thorough 3), leaf dimensions 1..2 (thorough 1..3; an empty leaf space is outside: size(prefix)==0 then cannot be told from a complete index), arbitrary local-to-global map, arbitrary default value; std container and ISTL factories; all strategy combinations listed
// CASE: fi_fl_fi -DVSP=FlatInterleaved -DVSC=FlatLexicographic -DVSI=FlatInterleaved
// CASE: fl_fl_fl -DVSP=FlatLexicographic -DVSC=FlatLexicographic -DVSI=FlatLexicographic
// CASE: bi_fl_fi -DVSP=BlockedInterleaved -DVSC=FlatLexicographic -DVSI=FlatInterleaved
// CASE: bl_fl_fl -DVSP=BlockedLexicographic -DVSC=FlatLexicographic -DVSI=FlatLexicographic
// CASE: fi_bl_bi -DVSP=FlatInterleaved -DVSC=BlockedLexicographic -DVSI=BlockedInterleaved
// CASE: fl_bl_bl -DVSP=FlatLexicographic -DVSC=BlockedLexicographic -DVSI=BlockedLexicographic
// CASE: bi_bl_bi -DVSP=BlockedInterleaved -DVSC=BlockedLexicographic -DVSI=BlockedInterleaved
// CASE: bl_bl_bl -DVSP=BlockedLexicographic -DVSC=BlockedLexicographic -DVSI=BlockedLexicographic
// CASE: bi_bl_fl -DVSP=BlockedInterleaved -DVSC=BlockedLexicographic -DVSI=FlatLexicographic
// CASE: bl_bl_fi -DVSP=BlockedLexicographic -DVSC=BlockedLexicographic -DVSI=FlatInterleaved
// CASE: fi_fl_bl -DVSP=FlatInterleaved -DVSC=FlatLexicographic -DVSI=BlockedLexicographic
// CASE: fl_fl_bi -DVSP=FlatLexicographic -DVSC=FlatLexicographic -DVSI=BlockedInterleaved
// CASE: fi_bl_fl -DVSP=FlatInterleaved -DVSC=BlockedLexicographic -DVSI=FlatLexicographic
// CASE: fl_bl_fi -DVSP=FlatLexicographic -DVSC=BlockedLexicographic -DVSI=FlatInterleaved
#include "treelist.hh"
#include "containers.hh"
using namespace Trees;
extern "C" void harness(){
  int t=symPick("tree",0,nTrees-1); size_t n= dynamicDegree(t)?symPick("degree",1,VERIF_THOROUGH?3:2):1;
  G g; line(g,1);
  int leaves= leavesOf(t);
  for(int i=0;i<leaves;i++) fullLeaf(i,symPick("dim",1,VERIF_THOROUGH?3:2),1);
  withTree<VSP,VSC,VSI>(t,n,[&](auto factory){ auto b=makeBasis(g.leafGridView(),factory); Containers::check(b); });
  REACH("end");
}
