// meshes with 3 or 4 elements of different types
#pragma once
#include "meshes.hh"
namespace Dune::Mock {
template<int d,int w,int s> void strip(Grid<d,w,s>& g,unsigned o){
  auto V=[&](double x,double y=0,double z=0){ FieldVector<double,w> p(0.0); p[0]=x; if constexpr(w>1) p[1]=y; if constexpr(w>2) p[2]=z; return g.vertex(p); };
  auto A=[&](std::vector<int> v){ addOriented(g,v,"orient",o&1); o>>=1; };
  if constexpr(d==1){ V(0); V(1); V(3); V(4); A({0,1}); A({2,1}); A({2,3}); }
  if constexpr(d==2){ V(0,0); V(1,0); V(0,2); V(1,2); V(3,1); V(3,3); V(5,2); A({0,1,2,3}); A({1,4,3}); A({3,4,5}); A({5,4,6}); }   // quadrilateral and three triangles
  if constexpr(d==3){ for(int i=0;i<8;i++) V(i&1,2*(i>>1&1),3*(i>>2)); V(3,1,1); V(-1,0,0); V(-1,0,3); V(4,3,0); A({0,1,2,3,4,5,6,7}); A({1,3,5,7,8}); A({0,2,9,4,6,10}); A({1,3,8,11}); } // hexahedron, pyramid, prism, tetrahedron
}
}
inline std::vector<Dune::GeometryType> LocalHybridTypes(int c){ using namespace Dune::GeometryTypes; int d=VDIM-c; std::vector<Dune::GeometryType> r; if(d==0) r={vertex}; if(d==1) r={line}; if(d==2) r={triangle,quadrilateral}; if(d==3) r={tetrahedron,pyramid,prism,hexahedron}; return r; }
