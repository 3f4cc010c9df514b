// TITLE: PolymorphicSmallObject behaves like a value holding an object of derived type
// BOUNDS: two holders in any state (empty or any kind), histories of 2 (thorough 3) arbitrary operations (construct from a small / large / over-aligned / offset-base object, default construct, copy and move construct, copy and move assign incl. from itself, swap, write, destroy); arbitrary values; copies that throw; buffer sizes 0 and 32
// CASE: buffered -DVBUF=32 -DVTHROW=0
// CASE: unbuffered -DVBUF=0 -DVTHROW=0
// CASE: throwing -DVBUF=32 -DVTHROW=1
#include <config.h>
#include <optional>
#include <new>
#include <utility>
#include "sym.h"
#include <dune/functions/common/polymorphicsmallobject.hh>
using Dune::Functions::PolymorphicSmallObject;
// registry of live objects
static const void* live[32]; static int nLive=0; static int throwIn=-1;
static void born(const void* p){ for(int i=0;i<nLive;i++) CHECK(live[i]!=p,"no object is created on top of a live one"); live[nLive++]=p; }
static bool alive(const void* p){ for(int i=0;i<nLive;i++) if(live[i]==p) return true; return false; }
static void died(const void* p){ for(int i=0;i<nLive;i++) if(live[i]==p){ live[i]=live[--nLive]; return; } CHECK(false,"only live objects are destroyed, exactly once"); }
struct Failure {};
static void mayThrow(){ if(throwIn==0){ throwIn=-1; throw Failure(); } if(throwIn>0) throwIn--; }
struct Base { virtual ~Base(){} virtual Base* clone() const=0; virtual Base* clone(void*) const=0; virtual Base* move(void*)=0; virtual int get() const=0; virtual void set(int)=0; virtual int kind() const=0; virtual const void* self() const=0; };
struct Extra { virtual ~Extra(){} };
template<int k,class... Bases> struct D : Bases... {
  static constexpr int id=k;
  int v; 
  D(int v): v(v){ born(this); }
  D(const D& o): Bases(o)..., v(o.v){ mayThrow(); CHECK(alive(&o),"copied object is alive"); born(this); }
  D(D&& o) noexcept : Bases(std::move(o))..., v(o.v){ CHECK(alive(&o),"moved object is alive"); born(this); o.v=-1; }
  ~D(){ died(this); }
};
template<class X> struct I : X { using X::X;
  I* clone() const override { return new I(*this); } I* clone(void* b) const override { return new(b) I(*this); } I* move(void* b) override { return new(b) I(std::move(*this)); }
  int get() const override { CHECK(alive(self()),"object read through the holder is alive"); return this->v; } void set(int x) override { CHECK(alive(self()),"object written through the holder is alive"); this->v=x; } int kind() const override { return X::id; } const void* self() const override { return static_cast<const X*>(this); } };
struct Pad : Base { long pad[8]; }; struct alignas(32) Over : Base { int q; };
using Small=I<D<0,Base>>; using Large=I<D<1,Pad>>; using Aligned=I<D<2,Over>>; using Offset=I<D<3,Extra,Base>>;
using H=PolymorphicSmallObject<Base,VBUF>;
struct Model { int kind=-1; int v=0; bool unspecified=false; };
static void make(std::optional<H>& h,Model& m){ int k=symPick("kind",0,3); int v=symInt("value",0,1000); h.reset();
  switch(k){ case 0: h.emplace(Small(v)); break; case 1: h.emplace(Large(v)); break; case 2: h.emplace(Aligned(v)); break; case 3: h.emplace(Offset(v)); break; } m={k,v,false}; }
static void verify(std::optional<H>* h,const Model* m,int n){ int want=0; bool unspec=false;
  for(int i=0;i<n;i++){ const H& c=*h[i]; if(m[i].unspecified){ unspec=true; if(c){ CHECK(alive(c.get().self()),"a moved-from holder is empty or holds a live object"); want++; } continue; }
    CHECK(bool(c)==(m[i].kind>=0),"holder is empty exactly if nothing was stored");
    if(m[i].kind>=0){ want++; CHECK(c.get().kind()==m[i].kind,"holder keeps the type of the stored object"); CHECK(c.get().get()==m[i].v,"holder keeps its own value"); 
      if(c.bufferUsed()) CHECK((const char*)c.get().self()>=(const char*)&c && (const char*)c.get().self()<(const char*)(&c+1),"bufferUsed() means the object lies inside the holder");
      else CHECK(!((const char*)c.get().self()>=(const char*)&c && (const char*)c.get().self()<(const char*)(&c+1)),"objects outside of the buffer are not inside the holder");
      CHECK(reinterpret_cast<std::uintptr_t>(c.get().self())%(m[i].kind==2?32:8)==0,"stored object is aligned"); } }
  CHECK(nLive==want,"exactly the stored objects are alive"); }
extern "C" void harness(){
  auto heap=__sym_live_heap();
  { constexpr int N=2; std::optional<H> h[N]; Model m[N]; for(int i=0;i<N;i++) h[i].emplace();
    for(int i=0;i<N;i++) if(symBool("filled")) make(h[i],m[i]);
    int steps=VERIF_THOROUGH?3:2;
    for(int s=0;s<steps;s++){
      int op=symPick("op",0,7); int a=symPick("target",0,N-1); int b=1-a; if(op==4||op==5) b=symPick("source",0,N-1); if(op==6) { b=1; }
      if(VTHROW && (op==2||op==4)) throwIn=symPick("throwAt",0,1)-1; Model old=m[a];
      try { switch(op){
        case 0: make(h[a],m[a]); break;
        case 1: h[a].reset(); h[a].emplace(); m[a]={}; break;
        case 2: if(m[b].unspecified) break; { H c(*h[b]); h[a].reset(); h[a].emplace(std::move(c)); } m[a]=m[b]; break;
        case 3: h[a].reset(); h[a].emplace(std::move(*h[b])); m[a]=m[b]; m[b].unspecified=true; break;
        case 4: if(m[b].unspecified) break; *h[a]=*h[b]; m[a]=m[b]; break;
        case 5: *h[a]=std::move(*h[b]); m[a]=m[b]; m[b].unspecified=true; break;
        case 6: std::swap(*h[a],*h[b]); std::swap(m[a],m[b]); break;
        case 7: if(m[a].kind>=0 && !m[a].unspecified){ int v=symInt("value",0,1000); h[a]->get().set(v); m[a].v=v; } break;
      } } catch(const Failure&){ m[a]=old; if(op==4) m[a].unspecified=true; /* valid but unspecified */ }
      throwIn=-1;
      verify(h,m,N);
    } }
  CHECK(nLive==0,"every stored object is destroyed"); CHECK(__sym_live_heap()==heap,"no memory is leaked");
  REACH("end");
}
