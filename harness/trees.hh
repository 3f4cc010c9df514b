// Basis trees over leaves with arbitrary (symbolic) dimension, local size and local-to-global map, and the
// oracle for the multi-index tree (C01), container descriptors (C02) and local views (C03).
#pragma once
#include <config.h>
#include <vector>
#include <memory>
#include <optional>
#include "sym.h"
#include "mockgrid.hh"
#include "meshes.hh"
#include <dune/common/reservedvector.hh>
#include <dune/common/typetree/traversal.hh>
#include <dune/localfunctions/lagrange/lagrangesimplex.hh>
#include <dune/functions/functionspacebases/nodes.hh>
#include <dune/functions/functionspacebases/leafprebasismixin.hh>
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/dynamicpowerbasis.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
namespace Trees {
using std::size_t;
using G=Dune::Mock::Grid<1,1,1>; using GV=G::LeafGridView; using Element=GV::Codim<0>::Entity;
// one leaf space: dimension and the global indices of the local degrees of freedom of every element
struct LeafData { size_t dim=0, maxn=0; std::vector<std::vector<size_t>> idx; };
inline LeafData leafData[4];

template<int id> struct Leaf : Dune::Functions::LeafPreBasisMixin<Leaf<id>> {
  using GridView=GV; using size_type=size_t;
  struct Node : Dune::Functions::LeafBasisNode {
    using Element=Trees::Element; using FiniteElement=Dune::LagrangeSimplexLocalFiniteElement<double,double,1,1>;
    const Element& element() const { return *e_; } const FiniteElement& finiteElement() const { return fe_; }
    void bind(const Element& e){ e_=&e; this->setSize(leafData[id].idx[e.e_].size()); }
    static constexpr int leafId=id;
    const Element* e_=nullptr; FiniteElement fe_;
  };
  Leaf(const GV& gv): gv_(gv){}
  void initializeIndices(){}
  const GridView& gridView() const { return gv_; }
  void update(const GV& gv){ gv_=gv; }
  Node makeNode() const { return Node{}; }
  size_type dimension() const { return leafData[id].dim; }
  size_type maxNodeSize() const { return leafData[id].maxn; }
  template<class N,class It> It indices(const N& node,It it) const { for(size_t i: leafData[id].idx[node.element().e_]){ *it={{ i }}; ++it; } return it; }
  GV gv_;
};
template<int id> auto leaf(){ return [](const auto& gv){ return Leaf<id>(gv); }; }
inline void line(G& g,int n){ for(int i=0;i<=n;i++) g.vertex({double(i)}); for(int i=0;i<n;i++) g.element(Dune::GeometryTypes::line,{i,i+1}); g.finalize(); }

template<class T> struct leafIdOf { template<class N> static int get(const N&){ if constexpr(requires{ N::leafId; }) return N::leafId; else return -1; } };

// multi-index tree: enumerate all leaves below a prefix
template<class Basis,class F> void traverse(const Basis& b,typename Basis::SizePrefix& p,size_t maxLen,F&& f){
  size_t n= b.size(p); 
  if(n==0 || p.size()==maxLen){ CHECK(n==0,"no multi-index is longer than the maximal length"); f(p); return; }
  for(size_t i=0;i<n;i++){ p.push_back(i); if(p.size()<=maxLen) traverse(b,p,maxLen,f); p.pop_back(); }
}
struct Dof { std::vector<size_t> mi; size_t leaf, idx; };  // leaf: position of the leaf in the tree
// leafIndices(node,position,element): the leaf space's own global indices on the element
template<class Basis,class LI> std::vector<Dof> collect(const Basis& b,LI&& leafIndices){
  std::vector<Dof> dofs; auto lv=b.localView();
  for(auto e: elements(b.gridView())){ lv.bind(e); CHECK(lv.size()<=lv.maxSize(),"element has at most maxSize() degrees of freedom");
    size_t pos=0;
    Dune::TypeTree::forEachLeafNode(lv.tree(),[&](auto& node,const auto&){
      const std::vector<size_t> ix=leafIndices(node,pos,e); CHECK(node.size()==ix.size(),"leaf size");
      for(size_t j=0;j<ix.size();j++){ const auto& mi=lv.index(node.localIndex(j)); Dof d; for(size_t k=0;k<mi.size();k++) d.mi.push_back(mi[k]); d.leaf=pos; d.idx=ix[j]; dofs.push_back(d); }
      pos++; }); }
  return dofs;
}
template<class Basis> std::vector<Dof> collect(const Basis& b){ return collect(b,[](auto& node,size_t,const auto& e){ return leafData[std::decay_t<decltype(node)>::leafId].idx[e.e_]; }); }
inline bool equal(const std::vector<size_t>& a,const std::vector<size_t>& b){ if(a.size()!=b.size()) return false; bool r=true; for(size_t i=0;i<a.size();i++) r&= a[i]==b[i]; return r; }
// every index lies in the tree described by size(prefix); distinct degrees of freedom have distinct indices, none is a prefix of another
template<class Basis> void indicesInTree(const Basis& b,const std::vector<Dof>& dofs){
  using PB=typename Basis::PreBasis;
  for(auto& d: dofs){ typename Basis::SizePrefix p;
    CHECK(d.mi.size()>=PB::minMultiIndexSize && d.mi.size()<=PB::maxMultiIndexSize,"index length between the advertised bounds");
    for(size_t k=0;k<d.mi.size();k++){ CHECK(d.mi[k]<b.size(p),"every index digit lies below size(prefix)"); p.push_back(d.mi[k]); }
    CHECK(b.size(p)==0,"a complete multi-index has no children"); }
  for(size_t i=0;i<dofs.size();i++) for(size_t j=0;j<i;j++){
    bool same= dofs[i].leaf==dofs[j].leaf && dofs[i].idx==dofs[j].idx;
    CHECK(equal(dofs[i].mi,dofs[j].mi)==same,"two degrees of freedom have the same multi-index exactly if they are the same"); }
}
template<class Basis> void contiguous(const Basis& b,const std::vector<Dof>& dofs,bool empties=false){
  typename Basis::SizePrefix p; size_t leaves=0; CHECK(b.size()==b.size(p),"size() is size of the empty prefix");
  if(b.size()==0){ CHECK(b.dimension()==0,"an empty index tree has dimension 0"); return; }
  traverse(b,p,Basis::PreBasis::maxMultiIndexSize,[&](const auto& q){ leaves++;
    bool hit=false; for(auto& d: dofs){ bool eq= d.mi.size()==q.size(); if(eq) for(size_t k=0;k<q.size();k++) eq&= d.mi[k]==q[k]; hit|=eq; }
    if(empties){ if(!hit) leaves--; }   // blocks of empty leaf spaces are present but contain no index
    else CHECK(hit,"every index below the reported sizes is used (no gaps)"); });
  CHECK(leaves==b.dimension(),"number of indices equals dimension()");
}
// leaf id: dimension dim, every index used on some element (symbolic permutation distributed over the elements)
inline void fullLeaf(int id,size_t dim,int nelem){ auto& L=leafData[id]; L.dim=dim; L.idx.assign(nelem,{}); L.maxn=0;
  std::vector<size_t> p(dim); bool ok=true; for(size_t i=0;i<dim;i++){ p[i]=symInt("leafIndex",0,dim-1); for(size_t j=0;j<i;j++) ok&= p[i]!=p[j]; } ASSUME(ok);
  for(size_t i=0;i<dim;i++) L.idx[i%nelem].push_back(p[i]); if(nelem>1 && dim>1) L.idx[1].push_back(p[0]); // one shared index
  for(auto& v: L.idx) if(v.size()>L.maxn) L.maxn=v.size(); }
// leaf id: arbitrary dimension in [1,maxDim], n arbitrary indices per element
inline void wideLeaf(int id,size_t maxDim,int nelem,size_t n){ auto& L=leafData[id]; L.dim=symInt("leafDim",1,maxDim); L.idx.assign(nelem,{}); L.maxn=n;
  for(auto& v: L.idx) for(size_t i=0;i<n;i++){ size_t x=symInt("leafIndex",0,maxDim-1); ASSUME(x<L.dim); v.push_back(x); } }
} // namespace
