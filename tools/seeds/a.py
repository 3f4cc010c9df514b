SEEDS=[]
SEEDS.append(dict(id="deque-pop-front-wrap",prop="C13",file="common/reserveddeque.hh",
 old="first_ = (++first_) % n;",new="first_ = (first_ + 2 < n) ? first_ + 1 : 0;",
 needs="a pop_front while the first element sits in the last but one slot of the ring buffer (n-2 pops, or pushes to the front followed by pops)",
 breaks="the deque skips one slot: afterwards front() and operator[] return other elements than those pushed",
 demo=r'''
#include <config.h>
#include <cassert>
#include <cstdio>
#include <dune/functions/common/reserveddeque.hh>
int main(){ Dune::Functions::ReservedDeque<int,4> d; for(int i=0;i<4;i++) d.push_back(i);
  for(int i=0;i<4;i++){ if(d.front()!=i){ printf("front is %d instead of %d\n",d.front(),i); return 1; } d.pop_front(); } return 0; }
'''))
SEEDS.append(dict(id="composite-flat-size-offset",prop="C01",file="functionspacebases/compositebasis.hh",
 old='''      staticFindInRange<0, children>([&](auto i) {
          auto firstDigitSize = this->subPreBasis(i).size();
          if (prefix[0] < firstDigitSize)
          {
            result = this->subPreBasis(i).size(prefix);
            return true;
          }
          prefix[0] -= firstDigitSize;
          return false;
        });''',
 new='''      size_type offset = 0;
      staticFindInRange<0, children>([&](auto i) {
          auto firstDigitSize = this->subPreBasis(i).size();
          if (prefix[0] < offset + firstDigitSize)
          {
            prefix[0] -= offset;
            result = this->subPreBasis(i).size(prefix);
            return true;
          }
          offset = firstDigitSize;
          return false;
        });''',
 needs="a flat lexicographic composite of at least three children of which the last has nested multi-indices",
 breaks="size(prefix) of prefixes in the third and later children refers to a wrong digit, so complete indices and inner prefixes are confused",
 demo=r'''
#include <config.h>
#include <cstdio>
#include <dune/grid/yaspgrid.hh>
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
int main(int argc,char**argv){ using namespace Dune; using namespace Dune::Functions::BasisFactory;
  MPIHelper::instance(argc,argv); YaspGrid<1> g({1.0},{3}); auto gv=g.leafGridView();
  auto b=makeBasis(gv,composite(power<2>(lagrange<1>(),blockedInterleaved()),power<2>(lagrange<1>(),blockedInterleaved()),composite(lagrange<1>(),lagrange<2>(),blockedLexicographic()),flatLexicographic()));
  auto lv=b.localView(); for(auto e: elements(gv)){ lv.bind(e); for(std::size_t i=0;i<lv.size();i++){ auto mi=lv.index(i); typename decltype(b)::SizePrefix p;
    for(std::size_t k=0;k<mi.size();k++){ if(!(mi[k]<b.size(p))){ printf("digit %zu of an index out of range\n",k); return 1; } p.push_back(mi[k]); }
    if(b.size(p)!=0){ printf("complete index has children\n"); return 1; } } } return 0; }
'''))
SEEDS.append(dict(id="lagrange-quad-face-orientation",prop="C04",file="functionspacebases/lagrangebasis.hh",
 old="      i_min = (vertexIndices[0] < vertexIndices[3]) ? 0 : 3;",new="      i_min = (vertexIndices[0] < vertexIndices[2]) ? 0 : 3;",
 needs="order >= 3 on hexahedra and a shared quadrilateral face whose two smallest vertex ids lie on the diagonal 0-3 with vertex 3 smallest, seen from one side only",
 breaks="two hexahedra number the interior nodes of their common face in different order, the global functions jump",
 mock=True,demo=r'''
#include <config.h>
#include <cstdio>
#include <mockgrid.hh>
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <algorithm>
using namespace Dune;
int main(){ int bad=0; int p[4]={0,1,2,3}; 
  do for(int rot=0;rot<2;rot++) { Mock::Grid<3,3,0> g; auto V=[&](double x,double y,double z){ FieldVector<double,3> q; q[0]=x;q[1]=y;q[2]=z; return g.vertex(q); };
    for(int i=0;i<8;i++) V(i&1,i>>1&1,i>>2); V(2,0,0); V(2,1,0); V(2,0,1); V(2,1,1);
    g.element(GeometryTypes::hexahedron,{0,1,2,3,4,5,6,7});
    if(rot==0) g.element(GeometryTypes::hexahedron,{1,8,3,9,5,10,7,11}); else g.element(GeometryTypes::hexahedron,{3,1,9,8,7,5,11,10});
    int sh[4]={1,3,5,7}; for(std::size_t v=0;v<g.x.size();v++) g.vid[v]=10+v; for(int i=0;i<4;i++) g.vid[sh[i]]=p[i];
    g.finalize(); auto gv=g.leafGridView(); auto b=Functions::BasisFactory::makeBasis(gv,Functions::BasisFactory::lagrange(3));
    std::vector<std::pair<FieldVector<double,3>,std::size_t>> nodes; auto lv=b.localView();
    for(auto e: elements(gv)){ lv.bind(e); auto& fe=lv.tree().finiteElement(); std::vector<double> c; std::array<std::vector<double>,3> x;
      for(int k=0;k<3;k++) fe.localInterpolation().interpolate([&](const auto& y){ return y[k]; },x[k]);
      for(std::size_t i=0;i<lv.size();i++){ FieldVector<double,3> y; for(int k=0;k<3;k++) y[k]=x[k][i]; y=e.geometry().global(y); std::size_t ix=lv.index(i)[0];
        for(auto& n: nodes){ auto d=n.first; d-=y; if((d.two_norm()<1e-8)!=(n.second==ix)) bad++; } nodes.push_back({y,ix}); } }
  } while(std::next_permutation(p,p+4));
  if(bad) printf("%d mismatches\n",bad); return bad!=0; }
'''))
