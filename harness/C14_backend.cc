// TITLE: ISTLVectorBackend: resize gives every multi-index an entry of its own; assignment and copies preserve entries
// BOUNDS: 12 pairs of basis tree and user container (BlockVector, std::vector, std::array, FieldVector, MultiTypeBlockVector, TupleVector), leaf dimensions 1..2 (thorough 3), arbitrary local-to-global maps, prior container sizes 0..3 with arbitrary contents; containers that do not fit
// CASE: a -DPART=1
// CASE: b -DPART=2
// CASE: mismatch -DPART=3
#include "trees.hh"
#include <tuple>
#include <dune/common/tuplevector.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/functions/backends/istlvectorbackend.hh>
#include <dune/functions/backends/concepts.hh>
using namespace Trees; using namespace Dune; using namespace Dune::Functions; using namespace Dune::Functions::BasisFactory;
template<int n> using FV=FieldVector<double,n>;
template<class T> struct isTuple : std::false_type {}; template<class... T> struct isTuple<TupleVector<T...>> : std::true_type {}; template<class... T> struct isTuple<MultiTypeBlockVector<T...>> : std::true_type {};
template<class C,class F> void walk(C& c,std::vector<size_t>& p,F&& f){
  if constexpr(std::is_arithmetic_v<std::decay_t<C>>) f(c,p);
  else if constexpr(isTuple<std::decay_t<C>>::value) Hybrid::forEach(std::make_index_sequence<C::size()>{},[&](auto i){ p.push_back(i); walk(c[i],p,f); p.pop_back(); });
  else for(size_t i=0;i<c.size();i++){ p.push_back(i); walk(c[i],p,f); p.pop_back(); } }
template<class C> void prior(C& c,size_t n){ if constexpr(std::is_arithmetic_v<C>) c=5; else if constexpr(isTuple<C>::value) Hybrid::forEach(std::make_index_sequence<C::size()>{},[&](auto i){ prior(c[i],n); }); else { if constexpr(requires{ c.resize(n); }) c.resize(n); for(size_t i=0;i<c.size();i++) prior(c[i],n); } }
// ones: trailing digits that stem from FieldVector<double,1> entries
template<class V,class Basis> void fits(const Basis& b,size_t pad=0){
  V v; prior(v,symPick("prior",0,2)); auto be=istlVectorBackend(v);
  static_assert(models<Dune::Functions::Concept::VectorBackend<Basis>,decltype(be)>()); static_assert(models<Dune::Functions::Concept::ConstVectorBackend<Basis>,decltype(istlVectorBackend(std::declval<const V&>()))>());
  be.resize(b);
  size_t entries=0; std::vector<size_t> p; walk(v,p,[&](double& x,std::vector<size_t>& q){ entries++; typename Basis::SizePrefix s; for(size_t i=0;i+pad<q.size();i++){ CHECK(q[i]<b.size(s),"resized vector has no entry without a multi-index"); s.push_back(q[i]); } CHECK(b.size(s)==0,"entries of the vector sit at complete multi-indices"); });
  CHECK(entries==b.dimension(),"resized vector has exactly one entry per degree of freedom");
  double zero=symReal("assigned",-2,2); be=zero; p.clear(); walk(v,p,[&](double& x,auto&){ CHECK_EQ(x,zero,"assigning a scalar sets every entry"); });
  auto lv=b.localView(); const V& cv=v; auto cbe=istlVectorBackend(cv); struct W { std::vector<size_t> mi; double val; double* addr; }; std::vector<W> ws;
  for(auto e: elements(b.gridView())){ lv.bind(e); for(size_t i=0;i<lv.size();i++){ const auto& mi=lv.index(i); double val=symReal("entry",-3,3); double& r=be[mi]; r=val; CHECK(&cbe[mi]==&r,"const backend addresses the same entry"); 
    std::vector<size_t> m(mi.begin(),mi.end()); W w{m,val,&r}; for(auto& o: ws){ bool same=equal(o.mi,m); CHECK(same==(o.addr==&r),"two multi-indices have the same entry exactly if they are equal"); if(same) o.val=val; } ws.push_back(w);
    std::vector<size_t> q; walk(v,q,[&](double& x,std::vector<size_t>& pos){ if(&x==&r){ bool eq= pos.size()==m.size()+pad; for(size_t k=0;k<m.size()&&eq;k++) eq&= pos[k]==m[k]; CHECK(eq,"the entry sits at the position given by the digits"); } }); } }
  // copies
  V w; auto bw=istlVectorBackend(w); bw.resize(b); bw=cbe; /* (assignment between backends of equal type re-targets the backend) */ for(auto& o: ws) CHECK_EQ(bw[o.mi],o.val,"copying from a const backend preserves entries");
  for(auto& o: ws) bw[o.mi]=17.; for(auto& o: ws) CHECK_EQ(be[o.mi],o.val,"copies are independent");
  CHECK(&be.vector()==&v && &cbe.vector()==&v,"backend refers to the user's vector");
  be.resize(b); for(auto& o: ws) CHECK_EQ(be[o.mi],o.val,"resizing to the same basis keeps the entries");
}
template<class V,class Basis> void fitsNot(const Basis& b,bool fit){ V v; prior(v,2); bool thrown=false; try { istlVectorBackend(v).resize(b); } catch(const RangeError&){ thrown=true; } CHECK(thrown==!fit,"resize() throws exactly if a statically sized level has another size than the basis"); }
extern "C" void harness(){
  G g; line(g,2); for(int i=0;i<2;i++) fullLeaf(i,symPick("dim",1,VERIF_THOROUGH?3:2),2); auto gv=g.leafGridView();
  auto fl=flatLexicographic(); auto fi=flatInterleaved(); auto bl=blockedLexicographic(); auto bi=blockedInterleaved();
#if PART==1
  switch(symPick("pair",0,6)){
    case 0: { auto b=makeBasis(gv,leaf<0>()); fits<BlockVector<double>>(b); } break;
    case 1: { auto b=makeBasis(gv,leaf<0>()); fits<BlockVector<FV<1>>>(b,1); } break;
    case 2: { auto b=makeBasis(gv,power<3>(leaf<0>(),bi)); fits<BlockVector<FV<3>>>(b); } break;
    case 3: { auto b=makeBasis(gv,power<2>(leaf<0>(),bl)); fits<std::array<BlockVector<double>,2>>(b); } break;
    case 4: { auto b=makeBasis(gv,composite(power<2>(leaf<0>(),bi),leaf<1>(),bl)); fits<MultiTypeBlockVector<BlockVector<FV<2>>,BlockVector<double>>>(b); } break;
    case 5: { auto b=makeBasis(gv,composite(leaf<0>(),power<2>(leaf<1>(),fl),fl)); fits<std::vector<double>>(b); } break;
    case 6: { auto b=makeBasis(gv,power<2>(leaf<0>(),fi)); fits<std::vector<FV<1>>>(b,1); } break;
  }
#elif PART==2
  size_t n=symPick("degree",1,2);
  switch(symPick("pair",0,4)){
    case 0: { auto b=makeBasis(gv,power(leaf<0>(),n,bl)); fits<std::vector<BlockVector<double>>>(b); } break;
    case 1: { auto b=makeBasis(gv,power(leaf<0>(),n,bi)); fits<std::vector<std::vector<double>>>(b); } break;
    case 2: { auto b=makeBasis(gv,composite(composite(leaf<0>(),leaf<1>(),bl),power(leaf<0>(),n,bi),bl)); fits<TupleVector<std::vector<std::vector<double>>,std::vector<std::vector<double>>>>(b); } break;
    case 3: { auto b=makeBasis(gv,power<2>(power<2>(leaf<0>(),bi),bl)); fits<std::array<std::vector<std::array<double,2>>,2>>(b); } break;
    case 4: { auto b=makeBasis(gv,composite(leaf<0>(),power<2>(leaf<1>(),bi),fl)); fits<std::vector<std::vector<double>>>(makeBasis(gv,power<2>(leaf<0>(),bi))); } break;
  }
#else
  size_t n=symPick("degree",1,3);
  switch(symPick("pair",0,4)){
    case 0: { auto b=makeBasis(gv,power(leaf<0>(),n,bi)); fitsNot<BlockVector<FV<2>>>(b,n==2); } break;
    case 1: { auto b=makeBasis(gv,power(leaf<0>(),n,bl)); fitsNot<std::array<BlockVector<double>,3>>(b,n==3); } break;
    case 2: { auto b=makeBasis(gv,leaf<0>()); fitsNot<FV<2>>(b,b.size()==2); } break;
    case 3: { auto b=makeBasis(gv,power(leaf<0>(),n,fl)); fitsNot<std::array<double,4>>(b,b.size()==4); } break;
    case 4: { auto b=makeBasis(gv,composite(power(leaf<0>(),n,bi),leaf<1>(),bl)); fitsNot<MultiTypeBlockVector<BlockVector<FV<2>>,BlockVector<double>>>(b,n==2); } break;
  }
#endif
  REACH("end");
}
