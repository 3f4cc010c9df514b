// TITLE: OverflowArray behaves like an ideal bounded sequence, multi-indices hash and compare by value
// BOUNDS: OverflowArray with base size 0..2 and capacity 2..4; any fill level as pre-state, then up to 3 (thorough 4) arbitrary operations, arbitrary values; StaticMultiIndex of size 1..3 with arbitrary 64-bit digits
// CASE: b2c3 -DBASE=2 -DCAP=3
// CASE-THOROUGH: b1c4 -DBASE=1 -DCAP=4
// CASE: b2c2 -DBASE=2 -DCAP=2
// CASE: smi -DSMI=1
#include <config.h>
#include <cassert>
#include <algorithm>
#include <array>
#include <initializer_list>
#include "sym.h"
#include <dune/common/hash.hh>
#include <dune/functions/common/overflowarray.hh>
#include <dune/functions/common/multiindex.hh>
#ifndef SMI
using A = Dune::Functions::OverflowArray<std::array<unsigned,BASE>,CAP>;
struct Model { unsigned v[CAP+1]; unsigned n=0; };
static void compare(A& d,const Model& m){
  const A& c=d;
  CHECK(d.size()==m.n,"size"); CHECK(d.empty()==(m.n==0),"empty()");
  for(unsigned i=0;i<m.n;i++){ CHECK(d[i]==m.v[i],"element"); CHECK(c[i]==m.v[i],"const element"); }
  for(unsigned i=0;i<m.n && i<BASE;i++) CHECK((static_cast<std::array<unsigned,BASE>&>(d)[i]==m.v[i]),"element seen through the base array");
  if(m.n){ CHECK(d.front()==m.v[0],"front"); CHECK(d.back()==m.v[m.n-1],"back"); CHECK(c.front()==m.v[0],"const front"); CHECK(c.back()==m.v[m.n-1],"const back"); }
  unsigned k=0; for(auto&& x: c){ CHECK(x==m.v[k],"iteration"); k++; } CHECK(k==m.n,"iteration length");
  k=0; for(auto&& x: d){ CHECK(x==m.v[k],"iteration"); k++; } CHECK(k==m.n,"iteration length");
}
extern "C" void harness(){
  Model m; unsigned start=symPick("init",0,2);
  unsigned a=symInt("a",0,1000), b=symInt("b",0,1000);
  A d = start==0 ? A{} : start==1 ? A({a}) : A({a,b});
  if(start>=1) m.v[m.n++]=a; if(start>=2) m.v[m.n++]=b;
  compare(d,m);
  for(unsigned r=symPick("fill",0,CAP-m.n);r>0;r--){ unsigned x=symInt("x",0,1000); d.push_back(x); m.v[m.n++]=x; }
  const int steps = VERIF_THOROUGH?4:3;
  for(int s=0;s<steps;s++){
    switch(symPick("op",0,6)){
      case 0: ASSUME(m.n<CAP); { unsigned x=symInt("x",0,1000); d.push_back(x); m.v[m.n++]=x; } break;
      case 1: ASSUME(m.n<CAP); { unsigned x=symInt("x",0,1000); d.push_front(x); for(unsigned i=m.n;i>0;i--) m.v[i]=m.v[i-1]; m.v[0]=x; m.n++; } break;
      case 2: ASSUME(m.n>0); d.pop_back(); m.n--; break;
      case 3: { ASSUME(m.n>0); unsigned i=symPick("i",0,m.n-1); unsigned x=symInt("x",0,1000); d[i]=x; m.v[i]=x; } break;
      case 4: { unsigned w=symPick("misc",0,2); if(w==0){ d.clear(); m.n=0; } else if(w==1){ A e(d); d.clear(); d=e; e.clear(); } else { unsigned r=symPick("rs",0,m.n); d.resize(r); m.n=r; } } break;
      case 5: { A e; unsigned n=symPick("n2",0,CAP); bool eq=(n==m.n); for(unsigned i=0;i<n;i++){ unsigned y=symInt("y",0,1000); e.push_back(y); if(n==m.n) eq &= (y==m.v[i]); }
                CHECK((d==e)==eq,"operator=="); CHECK((e==d)==eq,"operator== symmetric"); A f(d); CHECK(f==d,"copy equals original"); } break;
      case 6: { A f(d); CHECK(hash_value(f)==hash_value(d),"equal values hash equally"); } break;
    }
    compare(d,m);
  }
  CHECK(A::capacity()==CAP && A::max_size()==CAP,"capacity");
  REACH("end");
}
#else
template<std::size_t n> static void test(){
  using M=Dune::Functions::StaticMultiIndex<std::size_t,n>;
  M a,b; bool eq=true,lt=false,dec=false;
  for(std::size_t i=0;i<n;i++){ a[i]=symInt("a",0,~0ull); b[i]=symInt("b",0,~0ull); eq &= a[i]==b[i]; }
  if(symPick("what",0,1)==0){
  CHECK((a==b)==eq,"multi-index equality"); CHECK((a!=b)==!eq,"multi-index inequality"); return; }
  bool less=false,done=false; for(std::size_t i=0;i<n;i++){ less |= (!done)&(a[i]<b[i]); done |= a[i]!=b[i]; }
  CHECK((a<b)==less,"multi-index lexicographic order");
  CHECK(M::size()==n && M::max_size()==n && std::tuple_size<M>::value==n,"multi-index size");
  M c=a; CHECK(std::hash<M>()(c)==std::hash<M>()(a),"hash of equal multi-indices"); CHECK(hash_value(c)==hash_value(a),"hash_value of equal multi-indices");
  c=b; for(std::size_t i=0;i<n;i++) CHECK(c[i]==b[i],"assignment");
  unsigned k=0; for(auto x:a){ CHECK(x==a[k],"iteration"); k++; } CHECK(k==n,"iteration length");
}
extern "C" void harness(){
  switch(symPick("n",1,3)){ case 1: test<1>(); break; case 2: test<2>(); break; case 3: test<3>(); break; }
  Dune::Functions::StaticMultiIndex<std::size_t,1> s; s[0]=symInt("s",0,~0ull); std::size_t& r=s; const auto& cs=s; const std::size_t& cr=cs;
  CHECK(r==s[0] && cr==s[0],"digit cast"); std::size_t x=symInt("x",0,~0ull); r=x; CHECK(s[0]==x,"write through digit cast");
  REACH("end");
}
#endif
