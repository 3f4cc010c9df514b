// Property oracles for leaf bases on the mock grid.
#pragma once
#include <vector>
#include <map>
#include "sym.h"
#include "mockgrid.hh"
namespace Oracle {
using std::size_t;
template<class MI> size_t flat(const MI& m){ return m[0]; }

// C05: local keys enumerate each sub-entity's DOFs; sharing of global indices exactly follows sub-entities; no gaps
template<class Basis,class G> void leafLayout(const Basis& b,const G& g,bool shared=true){
  constexpr int dim=G::dimension;
  auto gv=b.gridView(); auto lv=b.localView();
  struct Dof { size_t index; long ent; unsigned key; int elem; };   // ent: unique id of the sub-entity
  std::vector<Dof> dofs; size_t N=b.dimension();
  CHECK(b.size()==N,"size() of a leaf basis equals dimension()");
  for(auto e: elements(gv)){
    lv.bind(e); const auto& fe=lv.tree().finiteElement(); const auto& lc=fe.localCoefficients();
    CHECK(lv.size()==fe.size() && lv.tree().size()==fe.size() && lc.size()==fe.size() && fe.localBasis().size()==fe.size(),"local sizes agree");
    CHECK(lv.size()<=lv.maxSize(),"element size does not exceed maxSize()");
    CHECK(fe.type()==e.type(),"finite element type is the element type");
    auto re=Dune::ReferenceElements<double,dim>::general(e.type());
    size_t n=fe.size(); size_t first=dofs.size();
    for(size_t i=0;i<n;i++){ auto k=lc.localKey(i); CHECK(int(k.codim())<=dim && int(k.subEntity())<re.size(k.codim()),"local key names a sub-entity");
      auto mi=lv.index(i); CHECK(mi.size()==1,"flat index"); CHECK(mi[0]<N,"index within size()");
      dofs.push_back({mi[0],shared?g.uid(e.e_,k.subEntity(),k.codim()):100000*(e.e_+1)+g.uid(e.e_,k.subEntity(),k.codim()),k.index(),e.e_}); }
    for(size_t i=first;i<dofs.size();i++){ size_t cnt=0; for(size_t j=first;j<dofs.size();j++) if(dofs[j].ent==dofs[i].ent) cnt++; CHECK(dofs[i].key<cnt,"keys of a sub-entity are 0,1,2,...");
      for(size_t j=first;j<i;j++) CHECK(dofs[j].ent!=dofs[i].ent || dofs[j].key!=dofs[i].key,"local keys are distinct"); }
  }
  // same index iff same functional: distinct within an element; across elements index sets of a sub-entity coincide
  size_t distinct=0;
  for(size_t i=0;i<dofs.size();i++){ bool earlier=false;
    for(size_t j=0;j<i;j++){
      if(dofs[i].elem==dofs[j].elem || dofs[i].ent!=dofs[j].ent) CHECK(dofs[i].index!=dofs[j].index,"distinct degrees of freedom have distinct indices");
      else earlier=true; }
    if(!earlier) distinct++;
    else { // seen from another element before: its index must be one of the indices that element gave to the sub-entity
      int e0=-1; for(size_t j=0;j<i;j++) if(dofs[j].ent==dofs[i].ent && e0<0) e0=dofs[j].elem;
      bool found=false; for(size_t j=0;j<i;j++) if(dofs[j].ent==dofs[i].ent && dofs[j].elem==e0) found|= (dofs[j].index==dofs[i].index);
      CHECK(found,"shared degrees of freedom have the same index from every element");
    } }
  CHECK(distinct==N,"the indices used on the grid are exactly 0..size()-1");
}
// same indices on all elements of the grid view
template<class B1,class B2> void sameIndices(const B1& a,const B2& b){
  CHECK(a.dimension()==b.dimension() && a.size()==b.size(),"sizes agree"); auto la=a.localView(); auto lb=b.localView();
  CHECK(la.maxSize()==lb.maxSize(),"maxSize agrees");
  for(auto e: elements(a.gridView())){ la.bind(e); lb.bind(e); CHECK(la.size()==lb.size(),"local sizes agree"); if(la.size()!=lb.size()) return;
    for(size_t i=0;i<la.size();i++){ CHECK(la.index(i).size()==lb.index(i).size(),"index lengths agree"); for(size_t k=0;k<la.index(i).size();k++) CHECK(la.index(i)[k]==lb.index(i)[k],"indices agree"); } }
}
// C04 (nodal bases): indices of neighbouring elements agree exactly where the nodes agree
template<class Basis> void nodesMatch(const Basis& b){
  using GV=std::decay_t<decltype(b.gridView())>; constexpr int dim=GV::dimension, dimw=GV::dimensionworld;
  struct Node { size_t index; Dune::FieldVector<double,dimw> x; int elem; };
  std::vector<Node> nodes; auto lv=b.localView();
  for(auto e: elements(b.gridView())){ lv.bind(e); const auto& fe=lv.tree().finiteElement(); auto geo=e.geometry();
    std::vector<double> c; std::vector<Dune::FieldVector<double,dimw>> x(fe.size());
    for(int k=0;k<dimw;k++){ fe.localInterpolation().interpolate([&](const Dune::FieldVector<double,dim>& l){ return geo.global(l)[k]; },c); CHECK(c.size()==fe.size(),"interpolation size"); for(size_t i=0;i<fe.size();i++) x[i][k]=c[i]; }
    for(size_t i=0;i<fe.size();i++) nodes.push_back({lv.index(i)[0],x[i],e.e_}); }
  for(size_t i=0;i<nodes.size();i++){ bool ok=true; for(size_t j=0;j<i;j++){ double d=0; for(int k=0;k<dimw;k++) d+=(nodes[i].x[k]-nodes[j].x[k])*(nodes[i].x[k]-nodes[j].x[k]); bool same=d<1e-12;
    ok &= ((nodes[i].index==nodes[j].index)==same); }
    CHECK(ok,"two local nodes share an index exactly if they are the same point"); }
}
// C04: every global basis function has the same trace from both sides of the shared facets at the facet-local point s
template<class Basis,class Z> void tracesMatch(const Basis& b,const Z& s){
  using GV=std::decay_t<decltype(b.gridView())>; auto gv=b.gridView(); auto l0=b.localView(); auto l1=b.localView();
  for(auto e: elements(gv)) for(auto is: intersections(gv,e)) if(is.neighbor()){ l0.bind(e); auto o=is.outside(); l1.bind(o);
    auto x0=is.geometryInInside().global(s), x1=is.geometryInOutside().global(s);
    std::vector<Dune::FieldVector<double,1>> v0,v1; l0.tree().finiteElement().localBasis().evaluateFunction(x0,v0); l1.tree().finiteElement().localBasis().evaluateFunction(x1,v1);
    for(size_t i=0;i<v0.size();i++){ double t=0; for(size_t j=0;j<v1.size();j++) if(l1.index(j)[0]==l0.index(i)[0]) t+=v1[j][0]; CHECK_EQ(v0[i][0],t,"basis function is continuous across the facet"); }
    for(size_t j=0;j<v1.size();j++){ double t=0; for(size_t i=0;i<v0.size();i++) if(l1.index(j)[0]==l0.index(i)[0]) t+=v0[i][0]; CHECK_EQ(v1[j][0],t,"basis function is continuous across the facet"); } }
}
} // namespace
