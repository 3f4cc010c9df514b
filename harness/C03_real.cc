// TITLE: local views of trees with real leaf nodes (finite element caches, geometry dependent elements) stay valid and independent for every history
// BOUNDS: two triangles; trees power(Lagrange)+X with X each of the leaf bases; histories of 2 (thorough 3) operations on two views; shape functions evaluated at an arbitrary point
// ASSUME: grid replaced by the mock grid of /verif/harness/mockgrid.hh
// CASE: p2 -DVB=lagrange -DVK=2 -DVDIM=2
// CASE: pdyn -DVB=lagrange -DVKDYN=3 -DVKMAX=3 -DVDIM=2
// CASE: dg -DVB=lagrangeDG -DVK=1 -DVDIM=2
// CASE: hb -DVB=hbubble -DVK=1 -DVDIM=2
// CASE: ra -DVB=rannacher -DVDIM=2
// CASE: rt -DVB=rt -DVK=0 -DVDIM=2
// CASE: bdm -DVB=bdm -DVK=1 -DVDIM=2
// CASE: ned -DVB=nedelec -DVDIM=2
// CASE: morley -DVB=morley -DVDIM=2
// CASE: hermite -DVB=hermite -DVDIM=2
// CASE: argyris -DVB=argyris -DVDIM=2
#define VSINGLE 1
#include "leafbases.hh"
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <optional>
using namespace Dune; using namespace Dune::Functions;
using V2=FieldVector<double,2>;
template<class R> double comp(const R& r,int k){ if constexpr(requires{ r[0]; }) return r[k]; else return r; }
template<class LV> void same(const LV& lv,const LV& fresh,const V2& x){
  CHECK(lv.size()==fresh.size(),"size as after a fresh bind"); if(lv.size()!=fresh.size()) return;
  for(size_t i=0;i<lv.size();i++){ const auto& a=lv.index(i); const auto& b=fresh.index(i); bool eq=a.size()==b.size(); if(eq) for(size_t k=0;k<a.size();k++) eq&= a[k]==b[k]; CHECK(eq,"index(i) as after a fresh bind"); }
  TypeTree::forEachLeafNode(lv.tree(),[&](const auto& n,const auto& tp){ const auto& m=TypeTree::child(fresh.tree(),tp);
    CHECK(n.element()==fresh.element(),"leaf is bound to the element of its view"); CHECK(n.size()==m.size() && n.treeIndex()==m.treeIndex() && n.finiteElement().size()==n.size(),"leaf sizes");
    if(n.size()>0) CHECK(n.localIndex(0)==m.localIndex(0),"leaf offset");
    using LB=std::decay_t<decltype(n.finiteElement().localBasis())>; std::vector<typename LB::Traits::RangeType> p,q; n.finiteElement().localBasis().evaluateFunction(x,p); m.finiteElement().localBasis().evaluateFunction(x,q);
    CHECK(p.size()==q.size(),"number of shape functions"); for(size_t i=0;i<p.size();i++) for(int k=0;k<int(LB::Traits::dimRange);k++) CHECK_EQ(comp(p[i],k),comp(q[i],k),"shape functions as after a fresh bind"); });
}
extern "C" void harness(){
  Mock::Grid<2,2,1> g; Mock::addMesh(g,Mock::Tri2,0); g.finalize();
  using namespace BasisFactory;
  auto basis=makeBasis(g.leafGridView(),composite(power<2>(lagrange<1>(),flatInterleaved()),VBASIS,blockedLexicographic()));
  using LV=typename decltype(basis)::LocalView; V2 x{symReal("x",0,1),symReal("y",0,1)};
  std::optional<LV> v[2]; int at[2]={-1,-1}; v[0].emplace(basis.localView()); v[1].emplace(basis); v[0]->bind(g.entity(0)); at[0]=0;
  int steps=VERIF_THOROUGH?3:2;
  for(int s=0;s<steps;s++){ int a=symPick("view",0,1), b=1-a;
    switch(symPick("op",0,5)){
      case 0: { int e=symPick("element",0,1); v[a]->bind(g.entity(e)); at[a]=e; } break;
      case 1: v[a]->unbind(); at[a]=-1; break;
      case 2: v[a].reset(); v[a].emplace(*v[b]); at[a]=at[b]; break;
      case 3: *v[a]=*v[b]; at[a]=at[b]; break;
      case 4: { LV tmp(std::move(*v[b])); v[b].reset(); v[b].emplace(basis.localView()); v[a].reset(); v[a].emplace(std::move(tmp)); at[a]=at[b]; at[b]=-1; } break;
      case 5: { LV tmp(*v[a]); *v[a]=tmp; LV& self=*v[a]; *v[a]=self; } break;
    } }
  for(int i=0;i<2;i++){ CHECK(v[i]->bound()==(at[i]>=0),"bound() reports whether the view is bound"); if(at[i]>=0){ auto fresh=basis.localView(); fresh.bind(g.entity(at[i])); same(*v[i],fresh,x); } }
  REACH("end");
}
