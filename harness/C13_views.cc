// TITLE: FlatVectorView and DenseVectorView present the entries of the wrapped container in order
// BOUNDS: FieldVector, FieldMatrix up to 3x3, arrays of vectors/matrices, scalars, std::vector of size up to 4; arbitrary symbolic entries, arbitrary index
// CASE: flat -DPART=1
// CASE: dense -DPART=2
#include <config.h>
#include <array>
#include <vector>
#include "sym.h"
#include <dune/common/fvector.hh>
#include <dune/common/fmatrix.hh>
#include <dune/functions/functionspacebases/flatvectorview.hh>
#include <dune/functions/common/densevectorview.hh>
using namespace Dune; using namespace Dune::Functions;
#if PART==1
// 'flatten' enumerates the entries in nesting order (reference model)
static void fl(double& x,std::vector<double*>& o){ o.push_back(&x); }
template<class K,int n> void fl(FieldVector<K,n>& x,std::vector<double*>& o){ for(int i=0;i<n;i++) fl(x[i],o); }
template<class K,int n,int m> void fl(FieldMatrix<K,n,m>& x,std::vector<double*>& o){ for(int i=0;i<n;i++) for(int j=0;j<m;j++) fl(x[i][j],o); }
template<class K,std::size_t n> void fl(std::array<K,n>& x,std::vector<double*>& o){ for(std::size_t i=0;i<n;i++) fl(x[i],o); }
template<class T> void test(){
  T t; std::vector<double*> ref; fl(t,ref);
  for(auto p:ref) *p=symReal("v",-10,10);
  auto view=flatVectorView(t); const T& ct=t; auto cview=flatVectorView(ct);
  CHECK(std::size_t(view.size())==ref.size(),"flat view size"); CHECK(std::size_t(cview.size())==ref.size(),"flat const view size");
  for(std::size_t i=0;i<ref.size();i++){ CHECK_EQ(view[i],*ref[i],"flat view entry"); CHECK_EQ(cview[i],*ref[i],"flat const view entry"); }
  std::size_t i=symInt("i",0,ref.size()-1); double w=symReal("w",-10,10);
  std::size_t k=__sym_pick(i); std::vector<double> old; for(auto p:ref) old.push_back(*p);
  view[k]=w;
  for(std::size_t j=0;j<ref.size();j++) CHECK_EQ(*ref[j], j==k? w: old[j],"write through the view changes exactly one entry");
  auto tmp=flatVectorView(T(t)); CHECK(std::size_t(tmp.size())==ref.size(),"flat view of temporary: size");
  for(std::size_t j=0;j<ref.size();j++){ CHECK_EQ(tmp[j],*ref[j],"flat view of a temporary"); }
  double before=*ref[k]; tmp[k]=w+1; CHECK_EQ(*ref[k],before,"view of a temporary owns its data");
  CHECK_EQ(tmp[k],w+1,"view of a temporary is writable");
}
extern "C" void harness(){
  switch(symPick("type",0,8)){
    case 0: test<FieldVector<double,1>>(); break;
    case 1: test<FieldVector<double,3>>(); break;
    case 2: test<FieldMatrix<double,2,3>>(); break;
    case 3: test<FieldMatrix<double,3,2>>(); break;
    case 4: test<std::array<FieldVector<double,2>,3>>(); break;
    case 5: test<std::array<FieldMatrix<double,2,3>,2>>(); break;
    case 6: test<std::array<std::array<FieldVector<double,2>,2>,3>>(); break;
    case 7: test<double>(); break;
    case 8: test<std::array<FieldMatrix<double,1,2>,3>>(); break;
  }
  REACH("end");
}
#else
extern "C" void harness(){
  using V=std::vector<double>; unsigned n=symPick("n",1,4);
  V a(n),b(n); for(auto&x:a) x=symReal("a",-10,10); for(auto&x:b) x=symReal("b",-10,10); V a0=a,b0=b;
  Dune::Functions::Impl::DenseVectorView<V> va(a), vb(b); const V& ca=a; Dune::Functions::Impl::DenseVectorView<const V> vc(ca);
  CHECK(va.size()==n && vc.size()==n,"dense view size");
  for(unsigned i=0;i<n;i++){ CHECK_EQ(va[i],a0[i],"entry"); CHECK_EQ(vc[i],a0[i],"const entry"); const auto& cva=va; CHECK_EQ(cva[i],a0[i],"entry via const view"); }
  double dot=0,s1=0; for(unsigned i=0;i<n;i++){ dot+=a0[i]*b0[i]; }
  CHECK_EQ(va*vb,dot,"scalar product");
  double al=symReal("alpha",-5,5);
  switch(symPick("op",0,6)){
    case 0: va.axpy(al,vb); for(unsigned i=0;i<n;i++) CHECK_EQ(a[i],a0[i]+al*b0[i],"axpy"); break;
    case 1: va*=al; for(unsigned i=0;i<n;i++) CHECK_EQ(a[i],a0[i]*al,"scaling"); break;
    case 2: va+=vb; for(unsigned i=0;i<n;i++) CHECK_EQ(a[i],a0[i]+b0[i],"+="); break;
    case 3: va=vb; for(unsigned i=0;i<n;i++) CHECK_EQ(a[i],b0[i],"assignment copies the entries"); { b[0]=al; if(n>0) CHECK_EQ(a[0],b0[0],"assigned view does not alias"); b[0]=b0[0]; } break;
    case 4: { unsigned k=symPick("k",0,n-1); va[k]=al; for(unsigned i=0;i<n;i++) CHECK_EQ(a[i], i==k?al:a0[i],"write one entry"); } break;
    case 5: { auto vm=std::move(va); vm[0]=al; CHECK_EQ(a[0],al,"moved view refers to the same container"); } break;
    case 6: { unsigned k=0; for(auto&& x:va){ CHECK_EQ(x,a0[k],"iteration"); k++; } CHECK(k==n,"iteration length"); } break;
  }
  for(unsigned i=0;i<n;i++) CHECK_EQ(b[i],b0[i],"other operand unchanged");
  REACH("end");
}
#endif
