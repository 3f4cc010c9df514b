// TITLE: descriptors and containers of Taylor-Hood, Lagrange and Hermite based bases match the index tree
// BOUNDS: triangle+quadrilateral or triangle pair; arbitrary vertex numbering; arbitrary default value
// ASSUME: grid replaced by the mock grid of /verif/harness/mockgrid.hh
// CASE: th -DVF=0
// CASE: thhi -DVF=1
// CASE: comp -DVF=2
// CASE: compflat -DVF=3
// CASE: p3 -DVF=4
// CASE: sub -DVF=5
// CASE: dg -DVF=6
#include "containers.hh"
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
#include <dune/functions/functionspacebases/taylorhoodbasis.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
using namespace Dune; using namespace Dune::Functions; using namespace Dune::Functions::BasisFactory;
extern "C" void harness(){
  Mock::Grid<2,2,0> g; Mock::addMesh(g,Mock::TriQuad,0); g.finalize(); Mock::symbolicIndices(g,GeometryTypes::vertex);
  auto gv=g.leafGridView(); using GV=decltype(gv);
#if VF==0
  Containers::check(makeBasis(gv,taylorHood()));
#elif VF==1
  Containers::check(DefaultGlobalBasis<TaylorHoodPreBasis<GV,true>>(gv));
#elif VF==2
  Containers::check(makeBasis(gv,composite(power<2>(lagrange<2>(),blockedInterleaved()),lagrange<1>(),blockedLexicographic())));
#elif VF==3
  Containers::check(makeBasis(gv,composite(power<2>(lagrange<2>(),flatLexicographic()),lagrange<1>(),flatLexicographic())));
#elif VF==4
  Containers::check(makeBasis(gv,lagrange<3>()));
#elif VF==5
  auto b=makeBasis(gv,composite(power<2>(lagrange<1>(),blockedInterleaved()),lagrange<0>(),blockedLexicographic())); Containers::check(subspaceBasis(b,Indices::_0));
#else
  Containers::check(makeBasis(gv,power<2>(lagrangeDG<1>(),blockedLexicographic())));
#endif
  REACH("end");
}
