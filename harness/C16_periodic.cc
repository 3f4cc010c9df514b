// TITLE: periodic bases identify exactly the degrees of freedom related by the user's pairs, with consecutive indices
// BOUNDS: raw flat basis with 0..5 (thorough 0..6) degrees of freedom, local-to-global map arbitrary; every set of identified pairs (all relations), both orders within a pair, repeated and trivial pairs; periodic basis made from a factory, a pre-basis and a basis; periodic bases inside composite and power bases; copies of the periodic index set
// ASSUME: grid replaced by the mock grid of /verif/harness/mockgrid.hh
// CASE: relations -DVPART=1
// CASE: sources -DVPART=2
// CASE: nested -DVPART=3
#include "containers.hh"
#include <dune/functions/functionspacebases/periodicbasis.hh>
#include <dune/functions/functionspacebases/lagrangebasis.hh>
using namespace Trees; using namespace Dune::Functions::BasisFactory; using PIS=Experimental::PeriodicIndexSet;
// reference: connected components by repeated relaxation
struct Rel { size_t n; std::vector<size_t> comp; size_t classes=0;
  void close(const std::vector<std::pair<size_t,size_t>>& pairs){ comp.resize(n); for(size_t i=0;i<n;i++) comp[i]=i; bool change=true; while(change){ change=false; for(auto [a,b]: pairs) if(comp[a]!=comp[b]){ size_t m=std::min(comp[a],comp[b]); comp[a]=comp[b]=m; change=true; } } for(size_t i=0;i<n;i++) classes+=comp[i]==i; } };
template<class Basis> void checkPeriodic(const Basis& b,const Rel& r){
  CHECK(b.size()==r.classes && b.dimension()==r.classes,"size and dimension are the number of classes of identified degrees of freedom");
  auto dofs=collect(b);
  for(auto& d: dofs){ CHECK(d.mi.size()==1 && d.mi[0]<r.classes,"index below size"); }
  for(size_t i=0;i<dofs.size();i++) for(size_t j=0;j<i;j++) CHECK((dofs[i].mi[0]==dofs[j].mi[0])==(r.comp[dofs[i].idx]==r.comp[dofs[j].idx]),"two degrees of freedom get the same index exactly if they are related by the given pairs");
  for(size_t k=0;k<r.classes;k++){ bool hit=false; for(auto& d: dofs) hit|= d.mi[0]==k; CHECK(hit,"the resulting indices are consecutive"); }
  typename Basis::SizePrefix p; auto cd=b.containerDescriptor(); Containers::descriptor(b,cd,p); }
// the set {0..n-1} on one or two elements, in arbitrary order
extern "C" void harness(){
  G g; int nelem=symPick("elements",1,2); line(g,nelem); 
#if VPART==1
  size_t n=symPick("n",0,VERIF_THOROUGH?6:5); auto& L=leafData[0]; L.dim=n; L.maxn=n; L.idx.assign(nelem,{}); for(size_t i=0;i<n;i++) L.idx[i%nelem].push_back(i); if(nelem>1 && n>1) L.idx[1].push_back(0);
  PIS pis; Rel r{n,{}}; std::vector<std::pair<size_t,size_t>> pairs;
  bool rev=symBool("reversed"); for(size_t a=0;a<n;a++) for(size_t b=a+1;b<n;b++) if(symBool("related")){ pairs.push_back({a,b}); if(rev) pis.unifyIndexPair(b,a); else pis.unifyIndexPair(a,b); }
  r.close(pairs); checkPeriodic(makeBasis(g.leafGridView(),Experimental::periodic(leaf<0>(),pis)),r);
#elif VPART==2
  size_t n=4; auto& L=leafData[0]; L.dim=L.maxn=n; L.idx.assign(nelem,{}); { size_t k=0; for(auto& v: L.idx) v.clear(); for(k=0;k<n;k++) L.idx[k%nelem].push_back(n-1-k); }
  PIS pis; Rel r{n,{}}; std::vector<std::pair<size_t,size_t>> pairs; size_t np=symPick("pairs",0,2);
  for(size_t k=0;k<np;k++){ size_t a=symPick("a",0,n-1), b=symPick("b",0,n-1); pairs.push_back({a,b}); pis.unifyIndexPair(a,b); if(k==0) pis.unifyIndexPair(b,a); }
  r.close(pairs); auto gv=g.leafGridView(); auto raw=makeBasis(gv,leaf<0>());
  switch(symPick("source",0,3)){
    case 0: checkPeriodic(makeBasis(gv,Experimental::periodic(leaf<0>(),pis)),r); break;
    case 1: checkPeriodic(makeBasis(gv,Experimental::periodic(raw.preBasis(),pis)),r); break;
    case 2: checkPeriodic(makeBasis(gv,Experimental::periodic(raw,pis)),r); break;
    case 3: { auto f=[&]{ PIS tmp(pis); return Experimental::periodic(leaf<0>(),std::move(tmp)); }(); pis.unifyIndexPair(0,3); checkPeriodic(makeBasis(gv,f),r); checkPeriodic(makeBasis(gv,f),r); auto b=makeBasis(gv,f); b.update(gv); checkPeriodic(b,r); break; }
  }
#else
  // periodic spaces as children of other bases: the tree of multi-indices is the one of the periodic spaces
  size_t n=3; auto& L=leafData[0]; L.dim=n; L.maxn=n; L.idx.assign(nelem,{}); for(auto& v: L.idx) v={0,1,2};
  PIS pis; Rel r{n,{}}; std::vector<std::pair<size_t,size_t>> pairs; for(size_t a=0;a<n;a++) for(size_t b=a+1;b<n;b++) if(symBool("related")){ pairs.push_back({a,b}); pis.unifyIndexPair(a,b); }
  r.close(pairs); fullLeaf(1,2,nelem); auto P=Experimental::periodic(leaf<0>(),pis); auto gv=g.leafGridView();
  auto check=[&](const auto& b,size_t copies,size_t other){
    CHECK(b.dimension()==copies*r.classes+other,"dimension of the product space"); auto dofs=collect(b);
    auto cls=[&](const Dof& d){ return copies && d.leaf<copies ? r.comp[d.idx] : d.idx; };
    for(size_t i=0;i<dofs.size();i++){ typename std::decay_t<decltype(b)>::SizePrefix p; for(size_t k=0;k<dofs[i].mi.size();k++){ CHECK(dofs[i].mi[k]<b.size(p),"digits below size(prefix)"); p.push_back(dofs[i].mi[k]); } CHECK(b.size(p)==0,"complete multi-index");
      for(size_t j=0;j<i;j++) CHECK(equal(dofs[i].mi,dofs[j].mi)==(dofs[i].leaf==dofs[j].leaf && cls(dofs[i])==cls(dofs[j])),"identified exactly within each periodic component"); }
    if(r.classes>0) contiguous(b,dofs); Containers::check(b); };
  switch(symPick("tree",0,5)){
    case 0: check(makeBasis(gv,composite(P,leaf<1>(),blockedLexicographic())),1,2); break;
    case 1: check(makeBasis(gv,composite(P,leaf<1>(),flatLexicographic())),1,2); break;
    case 2: check(makeBasis(gv,power<2>(P,flatInterleaved())),2,0); break;
    case 3: check(makeBasis(gv,power<2>(P,blockedInterleaved())),2,0); break;
    case 4: check(makeBasis(gv,power<2>(P,flatLexicographic())),2,0); break;
    case 5: check(makeBasis(gv,composite(power<2>(P,blockedLexicographic()),leaf<1>(),blockedLexicographic())),2,2); break; }
#endif
  REACH("end");
}
