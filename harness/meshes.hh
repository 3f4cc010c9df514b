// Mesh builders for the mock grid with symbolic orientation, vertex ids and numbering.
#pragma once
#include "sym.h"
#include "mockgrid.hh"
namespace Dune::Mock {
inline unsigned nOrient(GeometryType gt){ // number of symmetries of the reference element
  if(gt.isVertex()) return 1; if(gt.isLine()) return 2; if(gt.isTriangle()) return 6; if(gt.isQuadrilateral()) return 8;
  if(gt.isTetrahedron()) return 24; if(gt.isHexahedron()) return 48; if(gt.isPrism()) return 12; return 8; /* pyramid */ }
inline std::vector<int> nthPermutation(int n,unsigned k){ std::vector<int> pool,r; for(int i=0;i<n;i++) pool.push_back(i); unsigned f=1; for(int i=2;i<n;i++) f*=i;
  for(int i=n-1;i>=0;i--){ unsigned q=k/f; k%=f; r.push_back(pool[q]); pool.erase(pool.begin()+q); if(i>0) f/=i; } return r; }
inline std::vector<int> cubeSym(int d,unsigned c){ unsigned flip=c%(1u<<d); auto p=nthPermutation(d,c>>d); std::vector<int> r(1<<d);
  for(int i=0;i<(1<<d);i++){ int j=0; for(int k=0;k<d;k++) if(((i>>k)&1)^((flip>>k)&1)) j|=1<<p[k]; r[i]=j; } return r; }
// vertex list of an element after applying the symmetry number c of its reference element
inline std::vector<int> orient(GeometryType gt,const std::vector<int>& v,unsigned c){
  std::vector<int> m;
  if(gt.isSimplex()) m=nthPermutation(gt.dim()+1,c);
  else if(gt.isCube()) m=cubeSym(gt.dim(),c);
  else if(gt.isPrism()){ auto t=nthPermutation(3,c%6); bool f=c>=6; for(int i=0;i<6;i++) m.push_back(t[i%3]+3*((i/3)^int(f))); }
  else { m=cubeSym(2,c); m.push_back(4); }
  std::vector<int> r; for(int i: m) r.push_back(v[i]); return r; }
inline GeometryType typeOf(int dim,size_t nv){ if(dim==1) return GeometryTypes::line; if(dim==2) return nv==3?GeometryTypes::triangle:GeometryTypes::quadrilateral;
  if(nv==4) return GeometryTypes::tetrahedron; if(nv==5) return GeometryTypes::pyramid; if(nv==6) return GeometryTypes::prism; return GeometryTypes::hexahedron; }
template<int d,int w,int s> void addOriented(Grid<d,w,s>& g,const std::vector<int>& v,const char* name,bool symbolic){
  auto gt=typeOf(d,v.size()); unsigned c= symbolic ? symPick(name,0,nOrient(gt)-1) : 0; g.element(gt,orient(gt,v,c)); }
// arbitrary distinct vertex ids (only their order matters)
template<int d,int w,int s> void symbolicIds(Grid<d,w,s>& g,size_t maxId=d<3?1000000:15){ size_t n=g.x.size(); for(size_t i=0;i<n;i++) g.vid[i]=symInt("id",0,maxId); for(size_t i=0;i<n;i++) for(size_t j=0;j<i;j++) ASSUME(g.vid[i]!=g.vid[j]); }
// the same, but only for vertices shared by several elements; the others keep ids larger than all of those
template<int d,int w,int s> void symbolicSharedIds(Grid<d,w,s>& g){ std::vector<int> sh; for(size_t v=0;v<g.x.size();v++){ int n=0; for(auto& e: g.el) for(int u: e.v) if(u==int(v)) n++; if(n>1) sh.push_back(v); }
  for(int i: sh) g.vid[i]=symInt("id",0,15); for(size_t i=0;i<sh.size();i++) for(size_t j=0;j<i;j++) ASSUME(g.vid[sh[i]]!=g.vid[sh[j]]); }
// arbitrary numbering of the entities of one type
template<int d,int w,int s> void symbolicNumbering(Grid<d,w,s>& g,GeometryType gt,int view=0){ auto& S=g.views[view].is; size_t n=S.size(gt); if(n<2) return; unsigned f=1; for(size_t i=2;i<=n;i++) f*=i; auto p=nthPermutation(n,symPick("numbering",0,f-1)); S.renumber(gt,std::vector<unsigned>(p.begin(),p.end())); }
enum MeshKind { Line1, Line2, Tri1, Tri2, Quad1, Quad2, TriQuad, Tet1, Tet2, Hex1, Hex2, Prism1, Prism2q, Prism2t, Pyr1, HexPyr, HexPrism, TetPrism, TetPyr, PrismPyr };
// two (or one) elements sharing one facet; o: which elements get arbitrary orientation (bit mask)
template<int d,int w,int s> void addMesh(Grid<d,w,s>& g,int kind,unsigned o){
  auto V=[&](double x,double y=0,double z=0){ FieldVector<double,w> p(0.0); p[0]=x; if constexpr(w>1) p[1]=y; if constexpr(w>2) p[2]=z; return g.vertex(p); };
  auto A=[&](std::vector<int> v,int k){ addOriented(g,v,k?"orient1":"orient0",(o>>k)&1); };
  if constexpr(d==1){ V(0); V(1); A({0,1},0); if(kind==Line2){ V(3); A({1,2},1); } }
  if constexpr(d==2){
    if(kind==Tri1||kind==Tri2){ V(0,0); V(2,0); V(0,1); A({0,1,2},0); if(kind==Tri2){ V(3,2); A({1,2,3},1); } }
    else if(kind==Quad1||kind==Quad2){ V(0,0); V(1,0); V(0,2); V(1,2); A({0,1,2,3},0); if(kind==Quad2){ V(4,0); V(4,2); A({1,4,3,5},1); } }
    else { V(0,0); V(1,0); V(0,2); V(1,2); V(3,1); A({0,1,2,3},0); A({1,4,3},1); } }
  if constexpr(d==3){
    if(kind==Tet1||kind==Tet2){ V(0,0,0); V(1,0,0); V(0,2,0); V(0,0,3); A({0,1,2,3},0); if(kind==Tet2){ V(2,2,2); A({4,2,1,3},1); } }
    else if(kind==Hex1||kind==Hex2||kind==HexPyr||kind==HexPrism){ for(int i=0;i<8;i++) V(i&1,2*(i>>1&1),3*(i>>2)); A({0,1,2,3,4,5,6,7},0);
      if(kind==Hex2){ V(5,0,0); V(5,2,0); V(5,0,3); V(5,2,3); A({1,8,3,9,5,10,7,11},1); }
      if(kind==HexPyr){ V(3,1,1); A({1,3,5,7,8},1); }
      if(kind==HexPrism){ V(3,1,0); V(3,1,3); A({1,3,8,5,7,9},1); } }
    else if(kind==Prism1||kind==Prism2q||kind==Prism2t||kind==TetPrism||kind==PrismPyr){ V(0,0,0); V(1,0,0); V(0,2,0); V(0,0,3); V(1,0,3); V(0,2,3); A({0,1,2,3,4,5},0);
      if(kind==Prism2q){ V(1,2,0); V(1,2,3); A({1,6,2,4,7,5},1); }
      if(kind==Prism2t){ V(0,0,5); V(1,0,5); V(0,2,5); A({3,4,5,6,7,8},1); }
      if(kind==TetPrism){ V(0,0,6); A({3,4,5,6},1); }
      if(kind==PrismPyr){ V(2,3,1); A({1,2,4,5,6},1); } }
    else { V(0,0,0); V(1,0,0); V(0,2,0); V(1,2,0); V(0,0,3); A({0,1,2,3,4},0); if(kind==TetPyr){ V(3,1,3); A({1,3,4,5},1); } } }
}
} // namespace
namespace Dune::Mock {
// arbitrary numbering of the entities of one type, kept symbolic (no case split)
template<int d,int w,int s> void symbolicIndices(Grid<d,w,s>& g,GeometryType gt,int view=0){
  auto& S=g.views[view].is; size_t n=S.size(gt); if(n<2) return; std::vector<unsigned> p(n);
  for(size_t i=0;i<n;i++) p[i]=symInt("idx",0,n-1);
  bool ok=true; for(size_t i=0;i<n;i++) for(size_t j=0;j<i;j++) ok=ok&(p[i]!=p[j]); ASSUME(ok);
  S.renumber(gt,p); }
template<int d,int w,int s> void symbolicIndicesAll(Grid<d,w,s>& g,int mincodim=0,int view=0){ for(int c=mincodim;c<=d;c++){ auto t=g.views[view].is.types_[c]; for(auto gt: t) symbolicIndices(g,gt,view); } }
}
