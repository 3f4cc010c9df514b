// TITLE: local index layout of bound local views, for every history of bind/unbind/copy/assign/destroy
// BOUNDS: 16 tree shapes of depth <=3, three elements with leaf sizes 0..2 and arbitrary leaf indices; histories of 2 (thorough 3) arbitrary operations on two local views (bind to any element, unbind, copy construct, move construct, assign, self-assign, swap) 
// CASE: a -DVSP=BlockedInterleaved -DVSC=BlockedLexicographic -DVSI=FlatLexicographic
// CASE: b -DVSP=FlatLexicographic -DVSC=FlatLexicographic -DVSI=FlatInterleaved
#include "treelist.hh"
using namespace Trees;
// independent expectation: recompute the layout from the leaf sizes
template<class LV> void layout(const LV& lv,int e){
  CHECK(lv.bound() && lv.element().e_==e,"view is bound to the element");
  const auto& tree=lv.tree(); size_t next=0, treeIndex=0; 
  Dune::TypeTree::forEachNode(tree,[&](const auto& node,const auto& tp){
    using N=std::decay_t<decltype(node)>;
    CHECK(node.treeIndex()==treeIndex,"tree indices number the nodes depth first"); treeIndex++;
    CHECK(&Dune::TypeTree::child(tree,tp)==static_cast<const N*>(&node),"tree path leads to the node");
    CHECK(node.element().e_==e,"every node is bound to the element of the view");
    size_t sum=0; Dune::TypeTree::forEachLeafNode(node,[&](auto& l,const auto&){ sum+=leafData[std::decay_t<decltype(l)>::leafId].idx[e].size(); });
    CHECK(node.size()==sum && node.empty()==(sum==0),"size of a node is the sum of its leaves");
    if(sum>0) for(size_t i=0;i<sum;i++) CHECK(node.localIndex(i)==next+i,"node range starts where the previous leaf ended");
    if constexpr(requires{ N::leafId; }){ next+=sum; }
  });
  CHECK(next==lv.size(),"leaf ranges cover 0..size()-1");
  auto fresh=lv.globalBasis().localView(); fresh.bind(lv.element());
  for(size_t i=0;i<next;i++){ const auto& a=lv.index(i); const auto& b=fresh.index(i); bool eq=a.size()==b.size(); if(eq) for(size_t k=0;k<a.size();k++) eq&= a[k]==b[k]; CHECK(eq,"index(i) as after a fresh bind"); }
}
extern "C" void harness(){
  int t=symPick("tree",0,nTrees-1); size_t n=2; G g; line(g,3);
  // leaf sizes: element 0 has arbitrary sizes, the others fixed different ones
  for(int i=0;i<3;i++){ auto& L=leafData[i]; L.dim=4; L.maxn=2; L.idx.assign(3,{}); size_t s0= i<1?symPick("leafSize",0,2):i; for(size_t k=0;k<s0;k++) L.idx[0].push_back(symInt("leafIndex",0,3)); L.idx[1]={1}; for(int k=0;k<=i%2;k++) L.idx[2].push_back(k); }
  withTree<VSP,VSC,VSI>(t,n,[&](auto factory){
    auto basis=makeBasis(g.leafGridView(),factory); using LV=typename decltype(basis)::LocalView;
    std::optional<LV> v[2]; int at[2]={-1,-1}; v[0].emplace(basis.localView()); v[1].emplace(basis);
    int steps=VERIF_THOROUGH?3:2;
    v[0]->bind(g.entity(0)); at[0]=0;
    for(int s=0;s<steps;s++){
      int a=symPick("view",0,1), b=1-a;
      switch(symPick("op",0,5)){
        case 0: { int e=symPick("element",1,2); v[a]->bind(g.entity(e)); at[a]=e; } break;
        case 1: v[a]->unbind(); at[a]=-1; break;
        case 2: v[a].reset(); v[a].emplace(*v[b]); at[a]=at[b]; break;
        case 3: *v[a]=*v[b]; at[a]=at[b]; break;
        case 4: { LV tmp(std::move(*v[b])); v[b].reset(); v[b].emplace(basis.localView()); v[a].reset(); v[a].emplace(std::move(tmp)); at[a]=at[b]; at[b]=-1; } break;
        case 5: { LV tmp(*v[a]); *v[a]=tmp; LV& self=*v[a]; *v[a]=self; } break;
      }
      for(int i=0;i<2;i++){ CHECK(v[i]->bound()==(at[i]>=0),"bound() reports whether the view is bound"); if(at[i]>=0) layout(*v[i],at[i]); }
    } });
  REACH("end");
}
