// TITLE: transformed-index bases report exactly what the user's transformation prescribes
// BOUNDS: transformations: arbitrary permutation of a flat basis with up to 4 indices, arbitrary (non-injective) map, reversed digits of a two-level basis, flattening, blocking, prepended digit; raw bases with arbitrary local-to-global maps; leaf dimensions 1..3; containers with and without descriptor callback; nested below composite and power; update
// ASSUME: grid replaced by the mock grid of /verif/harness/mockgrid.hh
// CASE: flat -DVPART=1
// CASE: levels -DVPART=2
// CASE: nested -DVPART=3
#include "containers.hh"
#include <dune/functions/functionspacebases/transformedindexbasis.hh>
using namespace Trees; using namespace Dune::Functions::BasisFactory; using namespace Dune::Functions::BasisFactory::Experimental; namespace CDs=Dune::Functions::ContainerDescriptors;
template<class MI> std::vector<size_t> vec(const MI& m){ std::vector<size_t> v; for(size_t i=0;i<m.size();i++) v.push_back(m[i]); return v; }
// compare every index with the transformed index of the raw basis
template<class B,class R,class F> void against(const B& b,const R& raw,F&& map){
  auto l=b.localView(); auto m=raw.localView(); CHECK(b.dimension()==raw.dimension(),"dimension is that of the wrapped basis"); CHECK(l.maxSize()==m.maxSize(),"maximal local size is that of the wrapped basis");
  for(auto e: elements(b.gridView())){ l.bind(e); m.bind(e); CHECK(l.size()==m.size(),"local size is that of the wrapped basis"); for(size_t i=0;i<l.size();i++) CHECK(equal(vec(l.index(i)),map(vec(m.index(i)))),"index is the transformed index of the wrapped basis"); } }
extern "C" void harness(){
  G g; int nelem=symPick("elements",1,2); line(g,nelem); auto gv=g.leafGridView();
#if VPART==1
  size_t n=symPick("n",1,4); wideLeaf(0,4,nelem,2); ASSUME(leafData[0].dim==n); leafData[0].dim=n; std::vector<size_t> map(n); bool inj=symBool("permutation"); bool ok=true; for(size_t i=0;i<n;i++){ map[i]=symInt("map",0,n-1); if(inj) for(size_t j=0;j<i;j++) ok&= map[i]!=map[j]; } ASSUME(ok);
  size_t sz=symInt("size",0,100); auto raw=makeBasis(gv,leaf<0>());
  const void* seen=nullptr;
  auto T=indexTransformation([map](auto& mi,const auto& pb){ CHECK(pb.dimension()==map.size(),"the callback sees the wrapped pre-basis"); mi={{map[mi[0]]}}; }, [sz](const auto& p,const auto& pb){ CHECK(pb.dimension()==leafData[0].dim,"the callback sees the wrapped pre-basis"); return p.size()==0?sz:0; }, Dune::index_constant<1>(),Dune::index_constant<1>());
  auto factory=[&]{ auto copy=T; return transformIndices(leaf<0>(),std::move(copy)); }(); auto b=makeBasis(gv,factory);
  auto chk=[&](const auto& b){ against(b,raw,[&](auto v){ v[0]=map[v[0]]; return v; }); CHECK(b.size()==sz && b.preBasis().size()==sz,"size() is what the transformation prescribes"); typename std::decay_t<decltype(b)>::SizePrefix p; CHECK(b.size(p)==sz,"size(prefix)"); p.push_back(0); CHECK(b.size(p)==0,"size(prefix)");
    static_assert(std::is_same_v<decltype(b.preBasis().containerDescriptor()),CDs::Unknown>); };
  chk(b); auto c=b; c.update(gv); chk(c); chk(makeBasis(gv,factory));
  // with a container descriptor callback
  auto T2=indexTransformation([map](auto& mi,const auto&){ mi={{map[mi[0]]}}; },[n](const auto& p,const auto&){ return p.size()==0?n:0; },[n](const auto& pb){ return CDs::FlatVector{n+pb.dimension()}; },Dune::index_constant<1>(),Dune::index_constant<1>());
  auto d=makeBasis(gv,transformIndices(leaf<0>(),T2)); CHECK(d.containerDescriptor().size()==n+n,"container descriptor is the prescribed one");
#elif VPART==2
  size_t d0=symPick("dim",1,3); fullLeaf(0,d0,nelem); auto& L=leafData[0]; (void)L;
  switch(symPick("transformation",0,3)){
    case 0: { // blocked lexicographic -> reversed digits (= blocked interleaved)
      auto raw=makeBasis(gv,power<2>(leaf<0>(),blockedLexicographic())); auto T=indexTransformation([](auto& mi,const auto&){ std::swap(mi[0],mi[1]); },[](const auto& p,const auto& pb)->size_t{ return p.size()==0?pb.size()?leafData[0].dim:0:p.size()==1?2:0; },[](const auto&){ return CDs::UniformVector<CDs::FlatArray<2>>{leafData[0].dim}; },Dune::index_constant<2>(),Dune::index_constant<2>());
      auto b=makeBasis(gv,transformIndices(power<2>(leaf<0>(),blockedLexicographic()),T)); against(b,raw,[](auto v){ std::swap(v[0],v[1]); return v; }); against(b,makeBasis(gv,power<2>(leaf<0>(),blockedInterleaved())),[](auto v){ return v; }); auto dofs=collect(b); indicesInTree(b,dofs); contiguous(b,dofs); Containers::check(b); break; }
    case 1: { // two levels -> flat
      auto raw=makeBasis(gv,power<2>(leaf<0>(),blockedLexicographic())); auto T=indexTransformation([](auto& mi,const auto&){ mi={{mi[0]*leafData[0].dim+mi[1]}}; },[](const auto& p,const auto& pb)->size_t{ return p.size()==0?pb.dimension():0; },[](const auto& pb){ return CDs::FlatVector{pb.dimension()}; },Dune::index_constant<1>(),Dune::index_constant<1>());
      auto b=makeBasis(gv,transformIndices(power<2>(leaf<0>(),blockedLexicographic()),T)); using PB=typename decltype(b)::PreBasis; static_assert(PB::maxMultiIndexSize==1 && PB::minMultiIndexSize==1 && PB::multiIndexBufferSize>=2);
      against(b,raw,[](auto v){ return std::vector<size_t>{v[0]*leafData[0].dim+v[1]}; }); auto dofs=collect(b); indicesInTree(b,dofs); contiguous(b,dofs); Containers::check(b); break; }
    case 2: { // flat -> two blocks (even and odd)
      ASSUME(d0>1); auto raw=makeBasis(gv,leaf<0>()); auto T=indexTransformation([](auto& mi,const auto&){ size_t i=mi[0]; mi={{i%2,i/2}}; },[](const auto& p,const auto& pb)->size_t{ return p.size()==0?2:p.size()==1?(pb.dimension()+1-p[0])/2:0; },[](const auto& pb){ return CDs::Vector<CDs::FlatVector>{CDs::FlatVector{(pb.dimension()+1)/2},CDs::FlatVector{pb.dimension()/2}}; },Dune::index_constant<2>(),Dune::index_constant<2>());
      auto b=makeBasis(gv,transformIndices(leaf<0>(),T)); against(b,raw,[](auto v){ return std::vector<size_t>{v[0]%2,v[0]/2}; }); auto dofs=collect(b); indicesInTree(b,dofs); contiguous(b,dofs); Containers::check(b); break; }
    case 3: { // composite of two leaves with swapped components
      fullLeaf(1,2,nelem); auto F=composite(leaf<0>(),leaf<1>(),blockedLexicographic()); auto raw=makeBasis(gv,F); auto T=indexTransformation([](auto& mi,const auto&){ mi[0]=1-mi[0]; },[](auto p,const auto& pb)->size_t{ if(p.size()>0) p[0]=1-p[0]; return pb.size(p); },Dune::index_constant<2>(),Dune::index_constant<2>());
      auto b=makeBasis(gv,transformIndices(F,T)); against(b,raw,[](auto v){ v[0]=1-v[0]; return v; }); auto dofs=collect(b); indicesInTree(b,dofs); contiguous(b,dofs); break; } }
#else
  size_t d0=symPick("dim",1,3); fullLeaf(0,d0,nelem); fullLeaf(1,2,nelem);
  auto rev=[]{ return transformIndices(leaf<0>(),indexTransformation([](auto& mi,const auto& pb){ mi={{pb.dimension()-1-mi[0]}}; },[](const auto& p,const auto& pb)->size_t{ return p.size()==0?pb.dimension():0; },[](const auto& pb){ return CDs::FlatVector{pb.dimension()}; },Dune::index_constant<1>(),Dune::index_constant<1>())); };
  auto chk=[&](const auto& b,const auto& raw,auto&& map){ against(b,raw,map); auto dofs=collect(b); indicesInTree(b,dofs); contiguous(b,dofs); Containers::check(b); };
  switch(symPick("tree",0,4)){
    case 0: chk(makeBasis(gv,composite(rev(),leaf<1>(),blockedLexicographic())),makeBasis(gv,composite(leaf<0>(),leaf<1>(),blockedLexicographic())),[&](auto v){ if(v[0]==0) v[1]=d0-1-v[1]; return v; }); break;
    case 1: chk(makeBasis(gv,composite(leaf<1>(),rev(),flatLexicographic())),makeBasis(gv,composite(leaf<1>(),leaf<0>(),flatLexicographic())),[&](auto v){ if(v[0]>=2) v[0]=2+d0-1-(v[0]-2); return v; }); break;
    case 2: chk(makeBasis(gv,power<2>(rev(),flatInterleaved())),makeBasis(gv,power<2>(leaf<0>(),flatInterleaved())),[&](auto v){ v[0]=2*(d0-1-v[0]/2)+v[0]%2; return v; }); break;
    case 3: chk(makeBasis(gv,power<2>(rev(),blockedInterleaved())),makeBasis(gv,power<2>(leaf<0>(),blockedInterleaved())),[&](auto v){ v[0]=d0-1-v[0]; return v; }); break;
    case 4: { auto twice=transformIndices(rev(),indexTransformation([](auto& mi,const auto& pb){ mi={{pb.dimension()-1-mi[0]}}; },[](const auto& p,const auto& pb){ return pb.size(p); },[](const auto& pb){ return pb.containerDescriptor(); },Dune::index_constant<1>(),Dune::index_constant<1>())); chk(makeBasis(gv,twice),makeBasis(gv,leaf<0>()),[](auto v){ return v; }); break; } }
#endif
  REACH("end");
}
