// TITLE: multi-index access reaches exactly the addressed entry of nested containers
// BOUNDS: 14 container nestings of depth <=4 out of std::vector, std::array, BlockVector, FieldVector, FieldMatrix, TupleVector, MultiTypeBlockVector with (possibly ragged) sizes 1..3; every multi-index (symbolic digits); every index type (ReservedVector, std::array, std::vector, StaticMultiIndex, TypeTree path); shorter indices padded by zeros
// CASE: dynamic -DPART=1
// CASE: hybrid -DPART=2
// CASE: static -DPART=3
// CASE: misc -DPART=4
#include <config.h>
#include <array>
#include <vector>
#include <tuple>
#include "sym.h"
#include <dune/common/fvector.hh>
#include <dune/common/fmatrix.hh>
#include <dune/common/tuplevector.hh>
#include <dune/common/reservedvector.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/common/typetree/treepath.hh>
#include <dune/functions/common/indexaccess.hh>
#include <dune/functions/common/multiindex.hh>
#include <dune/functions/common/staticforloop.hh>
#include <dune/functions/common/squeezetensor.hh>
#include <dune/functions/common/utility.hh>
using namespace Dune; using namespace Dune::Functions; using std::size_t; using namespace Dune::Indices;
template<class T> struct isTuple : std::false_type {}; template<class... T> struct isTuple<TupleVector<T...>> : std::true_type {}; template<class... T> struct isTuple<MultiTypeBlockVector<T...>> : std::true_type {};
struct Leaf { std::vector<size_t> path; double* p; };
// reference enumeration of the leaves of a nested container
template<class C> void leaves(C& c,std::vector<size_t>& path,std::vector<Leaf>& out){
  if constexpr(std::is_arithmetic_v<C>) out.push_back({path,&c});
  else if constexpr(isTuple<C>::value) Hybrid::forEach(std::make_index_sequence<C::size()>{},[&](auto i){ path.push_back(i); leaves(c[i],path,out); path.pop_back(); });
  else for(size_t i=0;i<c.size();i++){ path.push_back(i); leaves(c[i],path,out); path.pop_back(); } }
template<int n> using FV=FieldVector<double,n>;
template<class T> struct Sized { static void set(T&){} };
static size_t nextSize=2; static size_t cycle(){ nextSize=nextSize%3+1; return nextSize; }
template<class C> void fill(C& c){ if constexpr(std::is_arithmetic_v<C>) c=0; else if constexpr(isTuple<C>::value) Hybrid::forEach(std::make_index_sequence<C::size()>{},[&](auto i){ fill(c[i]); });
  else { if constexpr(requires{ c.resize(1); }) c.resize(cycle()); for(size_t i=0;i<c.size();i++) fill(c[i]); } }
template<class C,class F> void onEntry(C& c,F&& access){
  std::vector<size_t> path; std::vector<Leaf> L; leaves(c,path,L); double k=0; for(auto& l: L) *l.p=++k;
  // arbitrary multi-index out of those of the container
  size_t maxLen=0; for(auto& l: L) maxLen=std::max(maxLen,l.path.size());
  size_t d[5]={0,0,0,0,0}; for(size_t i=0;i<maxLen;i++) d[i]=symInt("digit",0,3);
  bool valid=false; size_t which=0; for(size_t q=0;q<L.size();q++){ bool eq=true; for(size_t i=0;i<maxLen;i++) eq&= d[i]==(i<L[q].path.size()?L[q].path[i]:0); if(eq){ valid=true; which=q; } } ASSUME(valid);
  auto& l=L[which]; ReservedVector<size_t,5> mi; for(size_t i=0;i<l.path.size();i++) mi.push_back(d[i]);
  access(mi,l.p,L); }
template<class L> void onlyChanged(std::vector<L>& leaves,double* p){ for(size_t q=0;q<leaves.size();q++) CHECK_EQ(*leaves[q].p, leaves[q].p==p?-77.:double(q+1),"writing through the reference changes exactly one entry"); }
using A2=std::array<FV<2>,2>;
#define TYPES(X) X(0,std::vector<double>) X(1,FV<3>) X(2,std::vector<FV<2>>) X(3,BlockVector<FV<2>>) X(4,std::vector<std::vector<double>>) X(5,std::array<std::vector<FV<2>> COMMA 2>) \
  X(6,TupleVector<std::vector<double> COMMA std::vector<double>>) X(7,MultiTypeBlockVector<BlockVector<FV<2>> COMMA BlockVector<FV<1>>>) X(8,TupleVector<std::vector<FV<2>> COMMA std::array<double COMMA 2> COMMA std::vector<std::vector<double>>>) \
  X(9,std::vector<TupleVector<double COMMA FV<2> COMMA std::vector<double>>>) X(10,TupleVector<TupleVector<FV<2> COMMA std::vector<FV<1>>> COMMA std::vector<TupleVector<double COMMA double COMMA FV<3>>>>) X(11,std::array<std::array<std::array<double COMMA 2> COMMA 3> COMMA 2>) X(12,double) X(13,std::vector<BlockVector<FV<1>>>)
#define COMMA ,
#if PART==1
extern "C" void harness(){
  switch(symPick("type",0,13)){
#define X(N,...) case N: { __VA_ARGS__ c; fill(c); const auto& cc=c; onEntry(c,[&](const auto& mi,double* p,auto& L){ \
    decltype(auto) r=resolveDynamicMultiIndex(c,mi); static_assert(std::is_same_v<decltype(r),double&>); CHECK(&r==p,"dynamic access reaches the addressed entry"); \
    decltype(auto) cr=resolveDynamicMultiIndex(cc,mi); static_assert(std::is_same_v<decltype(cr),const double&>); CHECK(&cr==p,"dynamic access to const containers"); \
    std::vector<size_t> vi(mi.begin(),mi.end()); CHECK(&resolveDynamicMultiIndex(c,vi)==p,"dynamic access by std::vector"); \
    auto shorter=mi; while(shorter.size()>0 && shorter.back()==0) shorter.pop_back(); CHECK(&resolveDynamicMultiIndex(c,shorter)==p,"missing trailing digits count as zero"); \
    CHECK(&resolveDynamicMultiIndex(c,mi,[](auto&& x){ return std::is_arithmetic<std::decay_t<decltype(x)>>{}; })==p,"access with termination predicate"); \
    r=-77; onlyChanged(L,p); }); } break;
  TYPES(X)
  }
  REACH("end");
}
#endif
#if PART==2
extern "C" void harness(){
  switch(symPick("type",0,12)){
#undef X
#define X(N,...) case N: { __VA_ARGS__ c; fill(c); const auto& cc=c; onEntry(c,[&](const auto& mi,double* p,auto& L){ \
    decltype(auto) r=hybridMultiIndexAccess<double&>(c,mi); CHECK(&r==p,"hybrid access reaches the addressed entry"); \
    decltype(auto) cr=hybridMultiIndexAccess<const double&>(cc,mi); CHECK(&cr==p,"hybrid access to const containers"); \
    r=-77; onlyChanged(L,p); CHECK_EQ(hybridMultiIndexAccess<double>(cc,mi),-77,"hybrid access by value"); }); } break;
  X(0,std::vector<double>) X(1,FV<3>) X(2,std::vector<FV<2>>) X(3,BlockVector<FV<2>>) X(4,std::vector<std::vector<double>>) X(5,std::array<std::vector<FV<2>> COMMA 2>)
  X(6,TupleVector<std::vector<double> COMMA std::vector<double>>) X(7,MultiTypeBlockVector<BlockVector<FV<2>> COMMA BlockVector<FV<2>>>) X(8,TupleVector<std::vector<FV<2>> COMMA std::array<FV<2> COMMA 2>>) X(9,std::array<std::array<std::array<double COMMA 2> COMMA 3> COMMA 2>) X(10,TupleVector<double COMMA double COMMA double>)
    case 11: { TupleVector<double,FV<2>,std::vector<double>> c; fill(c); size_t i=symInt("i",0,2); size_t got=9; hybridIndexAccess(c,i,[&](auto&& e){ using E=std::decay_t<decltype(e)>; got= std::is_same_v<E,double>?0:std::is_same_v<E,FV<2>>?1:2; CHECK((void*)&e== (got==0?(void*)&c[_0]:got==1?(void*)&c[_1]:(void*)&c[_2]),"hybridIndexAccess passes the entry itself"); }); CHECK(got==i,"hybridIndexAccess selects entry i"); } break;
    case 12: { std::vector<double> c(3); size_t i=symInt("i",0,2); double* q=nullptr; hybridIndexAccess(c,i,[&](auto&& e){ q=&e; }); CHECK(q==&c[i],"hybridIndexAccess selects entry i"); } break;
  }
  REACH("end");
}
#endif
#if PART==3
extern "C" void harness(){
  using T=TupleVector<std::vector<FV<2>>,std::array<double,2>,TupleVector<double,std::vector<std::vector<double>>>>; T c; fill(c); const T& cc=c;
  size_t i=symInt("i",0,c[_0].size()-1),j=symInt("j",0,1);
  CHECK(&resolveStaticMultiIndex(c,TypeTree::treePath(_0,i,j))==&c[_0][i][j],"static access with run-time digits");
  CHECK(&resolveStaticMultiIndex(cc,TypeTree::treePath(_0,i,_1))==&c[_0][i][1],"static access to const containers");
  CHECK(&resolveStaticMultiIndex(c,TypeTree::treePath(_1,j))==&c[_1][j],"static access to arrays");
  CHECK(&resolveStaticMultiIndex(c,TypeTree::treePath(_2,_0))==&c[_2][_0],"static access to a tuple entry");
  auto& v=c[_2][_1]; size_t k=symInt("k",0,v.size()-1); size_t kk=__sym_pick(k); size_t l=symInt("l",0,v[kk].size()-1);
  CHECK(&resolveStaticMultiIndex(c,TypeTree::treePath(_2,_1,k,l))==&v[kk][l],"static access in depth 4");
  CHECK(&resolveStaticMultiIndex(c,TypeTree::treePath(_2,_1,k))==&v[kk],"access to an inner entry");
  CHECK(&resolveStaticMultiIndex(c,TypeTree::treePath(_2,_1))==&v && (void*)&resolveStaticMultiIndex(c,TypeTree::treePath(_2))==(void*)&c[_2] && &resolveStaticMultiIndex(c,TypeTree::treePath())==&c,"access to inner blocks and the container itself");
  double w=symReal("w",-5,5); resolveStaticMultiIndex(c,TypeTree::treePath(_0,i,j))=w; CHECK_EQ(c[_0][i][j],w,"write through static access");
  // static multi-indices of the library
  std::vector<std::vector<double>> vv={{1,2,3},{4},{5,6}}; StaticMultiIndex<size_t,2> mi; mi[0]=symPick("a",0,2); mi[1]=symInt("b",0,vv[mi[0]].size()-1);
  CHECK(&resolveDynamicMultiIndex(vv,mi)==&vv[mi[0]][mi[1]],"access by StaticMultiIndex<2>");
  std::vector<double> f(5); StaticMultiIndex<size_t,1> one; one[0]=symInt("c",0,4); CHECK(&resolveDynamicMultiIndex(f,one)==&f[one[0]],"access by StaticMultiIndex<1>");
  std::array<size_t,2> ai={mi[0],mi[1]}; CHECK(&resolveDynamicMultiIndex(vv,ai)==&vv[mi[0]][mi[1]],"access by std::array");
  // views that return values
  struct Proxy { double operator[](size_t i) const { return 2.*i; } size_t size() const { return 5; } };
  std::array<size_t,1> pi={symInt("p",0,4)}; CHECK_EQ(resolveDynamicMultiIndex(Proxy(),pi),2.*pi[0],"entries returned by value");
  REACH("end");
}
#endif
#if PART==4
extern "C" void harness(){
  switch(symPick("what",0,5)){
    case 0: { // staticFindInRange: ascending, stops at the first hit
      bool hit[5]; for(auto& h: hit) h=symBool("hit"); std::vector<int> seen; staticFindInRange<1,5>([&](auto i){ seen.push_back(i); return hit[i]; });
      size_t n=0; for(int i=1;i<5;i++){ CHECK(n<seen.size() && seen[n]==i,"staticFindInRange visits the range in order"); n++; if(hit[i]) break; } CHECK(n==seen.size(),"staticFindInRange stops at the first hit");
      staticFindInRange<2,2>([&](auto i){ CHECK(false,"empty range"); return true; }); } break;
    case 1: { FieldMatrix<double,1,3> m; for(int i=0;i<3;i++) m[0][i]=symReal("m",-3,3); auto& r=Dune::Functions::Impl::squeezeTensor(m); static_assert(std::is_same_v<std::decay_t<decltype(r)>,FV<3>>); CHECK(&r==&m[0],"squeezing a row matrix gives its row"); const auto& cm=m; CHECK(&Dune::Functions::Impl::squeezeTensor(cm)==&m[0],"const row matrix");
      FV<1> s(symReal("s",-3,3)); CHECK(&Dune::Functions::Impl::squeezeTensor(s)==&s[0],"squeezing a scalar"); const auto& cs=s; CHECK(&Dune::Functions::Impl::squeezeTensor(cs)==&s[0],"const scalar"); FieldMatrix<double,2,3> g; CHECK(&Dune::Functions::Impl::squeezeTensor(g)==&g,"other tensors are not changed"); const auto& cg=g; CHECK(&Dune::Functions::Impl::squeezeTensor(cg)==&g,"other const tensors are not changed");
      std::array<FieldMatrix<double,2,3>,1> t; CHECK(&Dune::Functions::Impl::squeezeTensor(t)==&t[0],"squeezing a 1xNxM tensor"); const auto& ct=t; CHECK(&Dune::Functions::Impl::squeezeTensor(ct)==&t[0],"const 1xNxM tensor"); FV<3> f; CHECK(&Dune::Functions::Impl::squeezeTensor(f)==&f,"vectors are not changed"); } break;
    case 2: { double a=symReal("a",-3,3),b=symReal("b",-3,3); auto t=transformTuple([](auto x){ return x*2; },std::make_tuple(a,b,3)); CHECK_EQ(std::get<0>(t),2*a,"transformTuple"); CHECK_EQ(std::get<1>(t),2*b,"transformTuple"); CHECK(std::get<2>(t)==6,"transformTuple"); 
      auto u=transformTuple([](auto x,auto y){ return x-y; },std::make_tuple(a,b),std::make_tuple(b,1.)); CHECK_EQ(std::get<0>(u),a-b,"transformTuple of two tuples"); CHECK_EQ(std::get<1>(u),b-1,"transformTuple of two tuples"); } break;
    case 3: { static_assert(std::is_same_v<RotateTuple<int,char,double>::type,std::tuple<double,int,char>>); static_assert(std::is_same_v<LastType<int,char,double>::type,double>); static_assert(std::is_same_v<ExpandTuple<std::tuple,std::tuple<int,char>>,std::tuple<int,char>>);
      static_assert(std::is_same_v<TransformTuple<std::vector,std::tuple<int,char>>,std::tuple<std::vector<int>,std::vector<char>>>); static_assert(std::is_same_v<IntegerSequenceTuple<std::index_sequence<2,0>>,std::tuple<index_constant<2>,index_constant<0>>>); CHECK(true,"type utilities"); } break;
    case 4: { bool v=symBool("v"); auto n=negatePredicate([&](int){ return v; }); CHECK(n(1)==!v,"negatePredicate negates"); CHECK(decltype(negatePredicate([](int){ return std::true_type{}; })(1))::value==false,"negatePredicate of true_type"); CHECK(decltype(negatePredicate([](int){ return std::false_type{}; })(1))::value==true,"negatePredicate of false_type"); 
      auto ck=callableCheck([](auto&& x) -> std::void_t<decltype(x[0])> {}); CHECK(decltype(ck(std::vector<int>()))::value && !decltype(ck(1.0))::value,"callableCheck"); } break;
    case 5: { double x=symReal("x",-2,2); auto c=forwardCapture(x); CHECK(&c.forward()==&x,"forwardCapture keeps references"); const double& cx=x; auto d=forwardCapture(cx); CHECK(&d.forward()==&x,"forwardCapture keeps const references"); auto e=forwardCapture(std::vector<double>{x,1}); auto w=e.forward(); CHECK(w.size()==2,"forwardCapture stores temporaries"); CHECK_EQ(w[0],x,"forwardCapture stores temporaries"); } break;
  }
  REACH("end");
}
#endif
