// C02/C14 oracles: descriptor versus multi-index tree, containers versus descriptor, backends
#pragma once
#include "trees.hh"
#include <dune/istl/bvector.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/functions/backends/containerfactory.hh>
#include <dune/functions/backends/istlvectorfactory.hh>
#include <dune/functions/backends/istlvectorbackend.hh>
#include <dune/functions/common/indexaccess.hh>
namespace Containers {
using std::size_t; namespace CD=Dune::Functions::ContainerDescriptors;
template<class T> struct isTuple : std::false_type {}; template<class... T> struct isTuple<Dune::TupleVector<T...>> : std::true_type {}; template<class... T> struct isTuple<Dune::MultiTypeBlockVector<T...>> : std::true_type {};
template<class D,class F> void children(const D& d,F&& f){
  if constexpr(isTuple<D>::value) Dune::Hybrid::forEach(std::make_index_sequence<D::size()>{},[&](auto i){ f(d[i],size_t(i)); });
  else for(size_t i=0;i<d.size();i++) f(d[i],i); }
template<class D,class F> void childrenMut(D& d,F&& f){
  if constexpr(isTuple<D>::value) Dune::Hybrid::forEach(std::make_index_sequence<D::size()>{},[&](auto i){ f(d[i],size_t(i)); });
  else for(size_t i=0;i<d.size();i++) f(d[i],i); }
// descriptor node d sits at prefix p
template<class Basis,class D> void descriptor(const Basis& b,const D& d,typename Basis::SizePrefix& p){
  if constexpr(std::is_same_v<D,CD::Value>) CHECK(b.size(p)==0,"the descriptor has a leaf exactly at complete multi-indices");
  else { size_t n=d.size(); CHECK(n==b.size(p),"number of children of the descriptor equals size(prefix)");
    children(d,[&](const auto& c,size_t i){ p.push_back(i); descriptor(b,c,p); p.pop_back(); }); }
}
template<class C> struct isScalar : std::bool_constant<std::is_arithmetic_v<C>> {};
template<class Basis,class C> void container(const Basis& b,const C& c,typename Basis::SizePrefix& p,double v,size_t& leaves){
  if constexpr(isScalar<C>::value){ CHECK(b.size(p)==0,"container entries sit exactly at complete multi-indices"); CHECK(c==v,"container entries have the requested value"); leaves++; }
  else { CHECK(c.size()==b.size(p),"number of container entries equals size(prefix)"); children(c,[&](const auto& cc,size_t i){ p.push_back(i); container(b,cc,p,v,leaves); p.pop_back(); }); }
}
template<class C,class F> void entries(C& c,F&& f){ if constexpr(isScalar<std::decay_t<C>>::value) f(c); else childrenMut(c,[&](auto& cc,size_t){ entries(cc,f); }); }
// every multi-index addresses its own entry
template<class Basis,class C,class A> void addressing(const Basis& b,C& c,A&& access){
  double k=1; entries(c,[&](auto& x){ x=0; });
  auto lv=b.localView();
  for(auto e: elements(b.gridView())){ lv.bind(e); for(size_t i=0;i<lv.size();i++) access(c,lv.index(i))=i+1;
    for(size_t i=0;i<lv.size();i++){ bool alias=false; for(size_t j=i+1;j<lv.size();j++) { auto a=lv.index(i); auto c=lv.index(j); alias|= Trees::equal(std::vector<size_t>(a.begin(),a.end()),std::vector<size_t>(c.begin(),c.end())); } CHECK(alias || access(c,lv.index(i))==i+1,"every multi-index has an entry of its own"); } }
}
template<class Basis> void check(const Basis& b){
  auto cd=b.containerDescriptor(); using D=decltype(cd); typename Basis::SizePrefix p;
  if constexpr(!std::is_same_v<D,CD::Unknown>){
    descriptor(b,cd,p);
    double v=symReal("value",-1,1); size_t leaves=0;
    auto c=Dune::Functions::makeContainer<double>(cd,v); container(b,c,p,v,leaves); CHECK(leaves==b.dimension(),"one container entry per degree of freedom");
    auto z=Dune::Functions::makeContainer<double>(cd); leaves=0; container(b,z,p,0,leaves); CHECK(leaves==b.dimension(),"one container entry per degree of freedom");
    addressing(b,c,[](auto& c,const auto& mi)->double&{ return Dune::Functions::resolveDynamicMultiIndex(c,mi); });
    auto w=Dune::Functions::makeISTLVector<double>(cd); leaves=0; container(b,w,p,0,leaves); CHECK(leaves==b.dimension(),"one ISTL vector entry per degree of freedom");
    addressing(b,w,[](auto& c,const auto& mi)->double&{ auto be=Dune::Functions::istlVectorBackend(c); return be[mi]; });
  }
}
}
