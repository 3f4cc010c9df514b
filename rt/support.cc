// Bitcode support library for the symbolic build: functions that normally live in libstdc++.so and
// libdunegeometry.a.  (Geo::Impl functions are validated against the library by tools/selftest.)
#include <map>
#include <unordered_map>
#include <list>
#include <algorithm>
#include <utility>
#include <cstddef>
#include <cmath>
#ifndef NO_DUNE_GEO
#include <dune/geometry/referenceelementimplementation.hh>
namespace Dune::Geo::SUPPORT_NS {
  using namespace Dune::Impl;
  unsigned int size ( unsigned int topologyId, int dim, int codim )
  {
    if( codim > 0 ) {
      const unsigned int baseId = baseTopologyId( topologyId, dim );
      const unsigned int m = size( baseId, dim-1, codim-1 );
      if( isPrism( topologyId, dim ) )
        return (codim < dim ? size( baseId, dim-1, codim ) : 0) + 2*m;
      return m + (codim < dim ? size( baseId, dim-1, codim ) : 1);
    }
    return 1;
  }
  unsigned int subTopologyId ( unsigned int topologyId, int dim, int codim, unsigned int i )
  {
    const int mydim = dim - codim;
    if( codim > 0 ) {
      const unsigned int baseId = baseTopologyId( topologyId, dim );
      const unsigned int m = size( baseId, dim-1, codim-1 );
      if( isPrism( topologyId, dim ) ) {
        const unsigned int n = (codim < dim ? size( baseId, dim-1, codim ) : 0);
        if( i < n )
          return subTopologyId( baseId, dim-1, codim, i ) | ((unsigned int)prismConstruction << (mydim - 1));
        return subTopologyId( baseId, dim-1, codim-1, (i < n+m ? i-n : i-(n+m)) );
      }
      if( i < m ) return subTopologyId( baseId, dim-1, codim-1, i );
      if( codim < dim ) return subTopologyId( baseId, dim-1, codim, i-m ) | ((unsigned int)pyramidConstruction << (mydim - 1));
      return 0u;
    }
    return topologyId;
  }
  void subTopologyNumbering ( unsigned int topologyId, int dim, int codim, unsigned int i, int subcodim, unsigned int *beginOut, unsigned int *endOut )
  {
    if( codim == 0 ) { for( unsigned int j = 0; (beginOut + j) != endOut; ++j ) *(beginOut + j) = j; }
    else if( subcodim == 0 ) { *beginOut = i; }
    else {
      const unsigned int baseId = baseTopologyId( topologyId, dim );
      const unsigned int m = size( baseId, dim-1, codim-1 );
      const unsigned int mb = size( baseId, dim-1, codim+subcodim-1 );
      const unsigned int nb = (codim + subcodim < dim ? size( baseId, dim-1, codim+subcodim ) : 0);
      if( isPrism( topologyId, dim ) ) {
        const unsigned int n = size( baseId, dim-1, codim );
        if( i < n ) {
          const unsigned int subId = subTopologyId( baseId, dim-1, codim, i );
          unsigned int *beginBase = beginOut;
          if( codim + subcodim < dim ) {
            beginBase = beginOut + size( subId, dim-codim-1, subcodim );
            subTopologyNumbering( baseId, dim-1, codim, i, subcodim, beginOut, beginBase );
          }
          const unsigned int ms = size( subId, dim-codim-1, subcodim-1 );
          subTopologyNumbering( baseId, dim-1, codim, i, subcodim-1, beginBase, beginBase+ms );
          for( unsigned int j = 0; j < ms; ++j ) { *(beginBase + j) += nb; *(beginBase + j + ms) = *(beginBase + j) + mb; }
        } else {
          const unsigned int s = (i < n+m ? 0 : 1);
          subTopologyNumbering( baseId, dim-1, codim-1, i-(n+s*m), subcodim, beginOut, endOut );
          for( unsigned int *it = beginOut; it != endOut; ++it ) *it += nb + s*mb;
        }
      } else {
        if( i < m ) subTopologyNumbering( baseId, dim-1, codim-1, i, subcodim, beginOut, endOut );
        else {
          const unsigned int subId = subTopologyId( baseId, dim-1, codim, i-m );
          const unsigned int ms = size( subId, dim-codim-1, subcodim-1 );
          subTopologyNumbering( baseId, dim-1, codim, i-m, subcodim-1, beginOut, beginOut+ms );
          if( codim+subcodim < dim ) {
            subTopologyNumbering( baseId, dim-1, codim, i-m, subcodim, beginOut+ms, endOut );
            for( unsigned int *it = beginOut + ms; it != endOut; ++it ) *it += mb;
          } else *(beginOut + ms) = mb;
        }
      }
    }
  }
  unsigned long referenceVolumeInverse ( unsigned int topologyId, int dim )
  {
    if( dim > 0 ) {
      unsigned int baseValue = referenceVolumeInverse( baseTopologyId( topologyId, dim ), dim-1 );
      return (isPrism( topologyId, dim ) ? baseValue : baseValue * (unsigned long)dim);
    }
    return 1;
  }
}
#endif
#ifndef SUPPORT_ONLY_GEO
namespace std {
  // red-black tree primitives, without rebalancing (ordering semantics only)
  _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
    if(x->_M_right){ x=x->_M_right; while(x->_M_left) x=x->_M_left; }
    else { auto y=x->_M_parent; while(x==y->_M_right){ x=y; y=y->_M_parent; } if(x->_M_right!=y) x=y; }
    return x; }
  const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
  _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
    if(x->_M_color==_S_red && x->_M_parent && x->_M_parent->_M_parent==x) x=x->_M_right;
    else if(x->_M_left){ auto y=x->_M_left; while(y->_M_right) y=y->_M_right; x=y; }
    else { auto y=x->_M_parent; while(x==y->_M_left){ x=y; y=y->_M_parent; } x=y; }
    return x; }
  const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
  void _Rb_tree_insert_and_rebalance(const bool left,_Rb_tree_node_base* x,_Rb_tree_node_base* p,_Rb_tree_node_base& h) throw() {
    x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_black;
    if(left){ p->_M_left=x; if(p==&h){ h._M_parent=x; h._M_right=x; } else if(p==h._M_left) h._M_left=x; }
    else { p->_M_right=x; if(p==h._M_right) h._M_right=x; }
  }
  _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z,_Rb_tree_node_base& h) throw() {
    auto repl=[&](_Rb_tree_node_base*u,_Rb_tree_node_base*v){ if(h._M_parent==u) h._M_parent=v; else if(u->_M_parent->_M_left==u) u->_M_parent->_M_left=v; else u->_M_parent->_M_right=v; if(v) v->_M_parent=u->_M_parent; };
    if(h._M_left==z) h._M_left = (z->_M_right? ({ auto y=z->_M_right; while(y->_M_left) y=y->_M_left; y; }) : z->_M_parent);
    if(h._M_right==z) h._M_right = (z->_M_left? ({ auto y=z->_M_left; while(y->_M_right) y=y->_M_right; y; }) : z->_M_parent);
    if(!z->_M_left) repl(z,z->_M_right);
    else if(!z->_M_right) repl(z,z->_M_left);
    else { auto y=z->_M_right; while(y->_M_left) y=y->_M_left; if(y->_M_parent!=z){ repl(y,y->_M_right); y->_M_right=z->_M_right; y->_M_right->_M_parent=y; } repl(z,y); y->_M_left=z->_M_left; y->_M_left->_M_parent=y; }
    return z; }
  size_t _Hash_bytes(const void* p,size_t n,size_t seed){ size_t h=seed; auto c=(const unsigned char*)p; for(size_t i=0;i<n;i++) h=h*31+c[i]; return h; }
  namespace __detail {
    size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b=n<13?13:2*n+1; _M_next_resize=b; return b; }
    pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb,size_t ne,size_t ni) const {
      if(ne+ni>_M_next_resize){ size_t want=ne+ni; if(want<=nb && _M_next_resize){ _M_next_resize=nb; return {false,0}; } return {true,_M_next_bkt(std::max(want+1,2*nb))}; }
      return {false,0}; }
    void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next=p; _M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
    void _List_node_base::_M_unhook() noexcept { auto n=_M_next; auto q=_M_prev; q->_M_next=n; n->_M_prev=q; }
  }
}
#endif
// std::exception (normally in libstdc++.so)
extern "C" { void _ZNSt9exceptionD2Ev(void*){} void _ZNSt9exceptionD1Ev(void*){} const char* _ZNKSt9exception4whatEv(const void*){ return "std::exception"; } }
