// TITLE: ReservedDeque behaves like an ideal double-ended queue
// BOUNDS: ReservedDeque capacity 2, 3 (thorough also 4); every ring position and fill level as pre-state, then up to 3 (thorough: 4) arbitrary operations with arbitrary values
// CASE: cap3 -DCAP=3
// CASE: cap2 -DCAP=2
// CASE-THOROUGH: cap4 -DCAP=4
#include <config.h>
#include <cassert>
#include <algorithm>
#include <initializer_list>
#include "sym.h"
#define CHECK_RESERVEDDEQUE 1
#include <dune/functions/common/reserveddeque.hh>
using D = Dune::Functions::ReservedDeque<unsigned,CAP>;
struct Model { unsigned v[CAP+1]; unsigned n=0;
  void pb(unsigned x){ v[n++]=x; }
  void pf(unsigned x){ for(unsigned i=n;i>0;i--) v[i]=v[i-1]; v[0]=x; n++; }
  void popb(){ if(n) n--; }
  void popf(){ if(n){ for(unsigned i=0;i+1<n;i++) v[i]=v[i+1]; n--; } } };
static void compare(D& d,const Model& m){
  const D& c=d;
  CHECK(d.size()==m.n,"deque size"); CHECK(d.empty()==(m.n==0),"deque empty()");
  for(unsigned i=0;i<m.n;i++){ CHECK(d[i]==m.v[i],"deque element"); CHECK(c[i]==m.v[i],"deque const element"); }
  if(m.n){ CHECK(d.front()==m.v[0],"deque front"); CHECK(d.back()==m.v[m.n-1],"deque back"); CHECK(c.front()==m.v[0],"const front"); CHECK(c.back()==m.v[m.n-1],"const back"); }
  unsigned k=0; for(auto&& x: c){ CHECK(x==m.v[k],"deque iteration"); k++; } CHECK(k==m.n,"deque iteration length");
  k=0; for(auto&& x: d){ CHECK(x==m.v[k],"deque iteration"); k++; } CHECK(k==m.n,"deque iteration length");
}
extern "C" void harness(){
  Model m; unsigned start=symPick("init",0,2);
  unsigned a=symInt("a",0,1000), b=symInt("b",0,1000);
  D d = start==0 ? D{} : start==1 ? D({a}) : D({a,b});
  if(start>=1) m.pb(a); if(start>=2) m.pb(b);
  compare(d,m);
  // arbitrary reachable pre-state: any ring position, any fill level
  for(unsigned r=symPick("rot",0,CAP-1);r>0;r--){ if(m.n<CAP){ unsigned x=symInt("x",0,1000); d.push_back(x); m.pb(x);} d.pop_front(); m.popf(); }
  for(unsigned r=symPick("fill",0,CAP-m.n);r>0;r--){ unsigned x=symInt("x",0,1000); d.push_back(x); m.pb(x); }
  compare(d,m);
  const int steps = VERIF_THOROUGH?4:3;
  for(int s=0;s<steps;s++){
    switch(symPick("op",0,5)){
      case 0: ASSUME(m.n<CAP); { unsigned x=symInt("x",0,1000); d.push_back(x); m.pb(x); } break;
      case 1: ASSUME(m.n<CAP); { unsigned x=symInt("x",0,1000); d.push_front(x); m.pf(x); } break;
      case 2: d.pop_back(); m.popb(); break;
      case 3: d.pop_front(); m.popf(); break;
      case 4: { ASSUME(m.n>0); unsigned i=symPick("i",0,m.n-1); unsigned x=symInt("x",0,1000); d[i]=x; m.v[i]=x; } break;
      case 5: { unsigned w=symPick("misc",0,2); if(w==0){ d.clear(); m.n=0; } else if(w==1){ D e(d); d.clear(); d=e; e.clear(); } else { unsigned r=symPick("rs",0,m.n); d.resize(r); m.n=r; } } break;
    }
    compare(d,m);
  }
  CHECK(D::capacity()==CAP && D::max_size()==CAP,"capacity");
  REACH("end");
}
