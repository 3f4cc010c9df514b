// A small, entirely header-based grid (dune-grid interface subset) whose vertex coordinates, vertex ids, entity
// numbering and element orientations may be symbolic.  It replaces the grid manager (trusted environment of the
// library); dune-functions itself is always the real code.
#pragma once
#include <array>
#include <vector>
#include <memory>
#include <algorithm>
#include <cassert>
#include <cmath>
#include <dune/common/fvector.hh>
#include <dune/common/fmatrix.hh>
#include <dune/common/iteratorrange.hh>
#include <dune/geometry/type.hh>
#include <dune/geometry/typeindex.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/grid/common/capabilities.hh>
#include <dune/grid/common/gridenums.hh>
#include <dune/grid/common/partitionset.hh>
#include <dune/grid/common/rangegenerators.hh>
#include <dune/grid/common/gridview.hh>

namespace Dune::Mock {
using std::size_t;

// ------------------------------------------------------------------ geometry
template<int mydim,int cdim> class Geometry {
public:
  static constexpr int mydimension=mydim, coorddimension=cdim;
  using ctype=double; using Volume=double;
  using LocalCoordinate=FieldVector<double,mydim>; using GlobalCoordinate=FieldVector<double,cdim>;
  using Jacobian=FieldMatrix<double,cdim,mydim>; using JacobianTransposed=FieldMatrix<double,mydim,cdim>;
  using JacobianInverse=FieldMatrix<double,mydim,cdim>; using JacobianInverseTransposed=FieldMatrix<double,cdim,mydim>;
  using ReferenceElement=decltype(ReferenceElements<double,mydim>::general(std::declval<GeometryType>()));
  Geometry(){}
  Geometry(GeometryType t,std::vector<GlobalCoordinate> c): gt(t),x(std::move(c)){}
  GeometryType type() const { return gt; }
  bool affine() const { return gt.isSimplex() || gt.isPyramid(); }
  int corners() const { return x.size(); }
  GlobalCoordinate corner(int i) const { assert(i>=0 && i<int(x.size())); return x[i]; }
  GlobalCoordinate global(const LocalCoordinate& l) const { double n[8]; shape(l,n); GlobalCoordinate r(0.0); for(size_t i=0;i<x.size();i++) for(int k=0;k<cdim;k++) r[k]+=n[i]*x[i][k]; return r; }
  Jacobian jacobian(const LocalCoordinate& l) const {
    double d[8][mydim>0?mydim:1]; dshape(l,d); Jacobian J;
    for(int r=0;r<cdim;r++) for(int c=0;c<mydim;c++){ double s=0; for(size_t i=0;i<x.size();i++) s+=d[i][c]*x[i][r]; J[r][c]=s; } return J; }
  JacobianTransposed jacobianTransposed(const LocalCoordinate& l) const { return T(jacobian(l)); }
  JacobianInverse jacobianInverse(const LocalCoordinate& l) const { return inverse(jacobian(l)); }
  JacobianInverseTransposed jacobianInverseTransposed(const LocalCoordinate& l) const { return T(jacobianInverse(l)); }
  double integrationElement(const LocalCoordinate& l) const {
    auto J=jacobian(l);
    if constexpr(mydim==0) return 1; else if constexpr(mydim==cdim) return std::abs(det(J)); else return std::sqrt(det(gram(J))); }
  double volume() const { if constexpr(mydim==0) return 1; else { auto re=ReferenceElements<double,mydim>::general(gt); return re.volume()*integrationElement(re.position(0,0)); } }
  GlobalCoordinate center() const { if constexpr(mydim==0) return x[0]; else return global(ReferenceElements<double,mydim>::general(gt).position(0,0)); }
  LocalCoordinate local(const GlobalCoordinate& y) const { LocalCoordinate z(0.0); auto Ji=jacobianInverse(z); GlobalCoordinate d=y; d-=x[0]; LocalCoordinate r; for(int i=0;i<mydim;i++){ r[i]=0; for(int k=0;k<cdim;k++) r[i]+=Ji[i][k]*d[k]; } return r; }
private:
  void shape(const LocalCoordinate& l,double* n) const {
    if constexpr(mydim==0){ n[0]=1; } else {
    if(gt.isSimplex()){ n[0]=1; for(int i=0;i<mydim;i++){ n[0]-=l[i]; n[i+1]=l[i]; } }
    else if(gt.isCube()){ for(int i=0;i<(1<<mydim);i++){ n[i]=1; for(int k=0;k<mydim;k++) n[i]*= (i>>k&1)? l[k] : 1-l[k]; } }
    else if(gt.isPrism()){ if constexpr(mydim==3){ double b[3]={1-l[0]-l[1],l[0],l[1]}; for(int i=0;i<3;i++){ n[i]=b[i]*(1-l[2]); n[i+3]=b[i]*l[2]; } } }
    else { if constexpr(mydim==3){ n[0]=1-l[0]-l[1]-l[2]; n[1]=l[0]; n[2]=l[1]; n[3]=0; n[4]=l[2]; } } }
  }
  template<class D> void dshape(const LocalCoordinate& l,D& d) const {
    if constexpr(mydim>0){
    if(gt.isSimplex()){ for(int c=0;c<mydim;c++){ d[0][c]=-1; for(int i=0;i<mydim;i++) d[i+1][c]=(i==c); } }
    else if(gt.isCube()){ for(int i=0;i<(1<<mydim);i++) for(int c=0;c<mydim;c++){ double v=1; for(int k=0;k<mydim;k++) v*= k==c ? ((i>>k&1)?1.:-1.) : ((i>>k&1)? l[k] : 1-l[k]); d[i][c]=v; } }
    else if(gt.isPrism()){ if constexpr(mydim==3){ double b[3]={1-l[0]-l[1],l[0],l[1]}; double g[3][2]={{-1,-1},{1,0},{0,1}};
        for(int i=0;i<3;i++){ for(int c=0;c<2;c++){ d[i][c]=g[i][c]*(1-l[2]); d[i+3][c]=g[i][c]*l[2]; } d[i][2]=-b[i]; d[i+3][2]=b[i]; } } }
    else { if constexpr(mydim==3){ for(int c=0;c<3;c++){ d[0][c]=-1; d[1][c]=c==0; d[2][c]=c==1; d[3][c]=0; d[4][c]=c==2; } } } }
  }
  template<int r,int c> static FieldMatrix<double,c,r> T(const FieldMatrix<double,r,c>& a){ FieldMatrix<double,c,r> t; for(int i=0;i<r;i++) for(int j=0;j<c;j++) t[j][i]=a[i][j]; return t; }
  template<int n> static double det(const FieldMatrix<double,n,n>& a){ if constexpr(n==1) return a[0][0]; else if constexpr(n==2) return a[0][0]*a[1][1]-a[0][1]*a[1][0];
    else return a[0][0]*(a[1][1]*a[2][2]-a[1][2]*a[2][1])-a[0][1]*(a[1][0]*a[2][2]-a[1][2]*a[2][0])+a[0][2]*(a[1][0]*a[2][1]-a[1][1]*a[2][0]); }
  template<int n> static FieldMatrix<double,n,n> inv(const FieldMatrix<double,n,n>& a){ FieldMatrix<double,n,n> r; double d=det(a);
    if constexpr(n==1) r[0][0]=1/d;
    else if constexpr(n==2){ r[0][0]=a[1][1]/d; r[0][1]=-a[0][1]/d; r[1][0]=-a[1][0]/d; r[1][1]=a[0][0]/d; }
    else for(int i=0;i<3;i++) for(int j=0;j<3;j++){ int i1=(j+1)%3,i2=(j+2)%3,j1=(i+1)%3,j2=(i+2)%3; r[i][j]=(a[i1][j1]*a[i2][j2]-a[i1][j2]*a[i2][j1])/d; }
    return r; }
  static FieldMatrix<double,mydim,mydim> gram(const Jacobian& J){ FieldMatrix<double,mydim,mydim> g; for(int i=0;i<mydim;i++) for(int j=0;j<mydim;j++){ g[i][j]=0; for(int k=0;k<cdim;k++) g[i][j]+=J[k][i]*J[k][j]; } return g; }
  static JacobianInverse inverse(const Jacobian& J){ if constexpr(mydim==0) return JacobianInverse(); else if constexpr(mydim==cdim) return inv(J);
    else { auto gi=inv(gram(J)); JacobianInverse r; for(int i=0;i<mydim;i++) for(int k=0;k<cdim;k++){ r[i][k]=0; for(int j=0;j<mydim;j++) r[i][k]+=gi[i][j]*J[k][j]; } return r; } }
  GeometryType gt; std::vector<GlobalCoordinate> x;
};

} // namespace Mock
namespace Dune { template<int m,int c> auto referenceElement(const Mock::Geometry<m,c>& g){ return ReferenceElements<double,m>::general(g.type()); } }
namespace Dune::Mock {
// ------------------------------------------------------------------ grid
template<int dim,int dimw,int single> class Grid;   // single: topology id + 1 of the only element type (0: several)
template<int dim,int dimw,int single> class GridView;

template<int cd,int dim,int dimw,int single> class Entity {
public:
  using G=Grid<dim,dimw,single>;
  static constexpr int codimension=cd, dimension=dim, mydimension=dim-cd;
  using Geometry=Mock::Geometry<dim-cd,dimw>; using LocalGeometry=Mock::Geometry<dim,dim>;
  struct EntitySeed { int e=-1,i=0; bool isValid() const { return e>=0; } static constexpr int codimension=cd; };
  template<int c> struct Codim { using Entity=Mock::Entity<c,dim,dimw,single>; };
  Entity(){}
  Entity(const G* g,int e,int i=0): g_(g),e_(e),i_(i){}
  int level() const { return g_->el[e_].level; }
  PartitionType partitionType() const { return InteriorEntity; }
  GeometryType type() const { auto t=g_->el[e_].gt; if constexpr(cd==0) return t; else return ReferenceElements<double,dim>::general(t).type(i_,cd); }
  Geometry geometry() const {
    std::vector<FieldVector<double,dimw>> c; auto re=ReferenceElements<double,dim>::general(g_->el[e_].gt);
    if constexpr(cd==0){ for(auto v: g_->el[e_].v) c.push_back(g_->x[v]); }
    else for(int k=0;k<re.size(i_,cd,dim);k++) c.push_back(g_->x[g_->el[e_].v[re.subEntity(i_,cd,k,dim)]]);
    return Geometry(type(),std::move(c)); }
  unsigned int subEntities(unsigned int codim) const { return ReferenceElements<double,dim>::general(g_->el[e_].gt).size(i_,cd,codim+0*cd); }
  template<int c> Entity<c,dim,dimw,single> subEntity(int i) const { static_assert(cd==0); return {g_,e_,i}; }
  EntitySeed seed() const { return {e_,i_}; }
  bool operator==(const Entity& o) const { if constexpr(cd==0) return g_==o.g_ && e_==o.e_; else return g_==o.g_ && g_->uid(e_,i_,cd)==g_->uid(o.e_,o.i_,cd); }
  bool operator!=(const Entity& o) const { return !(*this==o); }
  // codim 0
  bool isLeaf() const { return g_->el[e_].children.empty(); }
  bool hasFather() const { return g_->el[e_].father>=0; }
  Entity father() const { assert(hasFather()); return {g_,g_->el[e_].father}; }
  LocalGeometry geometryInFather() const { assert(hasFather()); return LocalGeometry(type(),g_->el[e_].inFather); }
  bool hasBoundaryIntersections() const { return g_->hasBoundary(e_); }
  bool isRegular() const { return true; }
  auto hbegin(int maxLevel) const { return typename G::HierarchicIterator(g_,e_,maxLevel); }
  auto hend(int maxLevel) const { return typename G::HierarchicIterator(g_,e_,-1); }
  friend auto referenceElement(const Entity& e){ return ReferenceElements<double,dim-cd>::general(e.type()); }
  const G* g_=nullptr; int e_=-1, i_=0;
};

template<int dim,int dimw,int single> class Intersection {
public:
  using GV=GridView<dim,dimw,single>;
  using Entity=Mock::Entity<0,dim,dimw,single>; using Geometry=Mock::Geometry<dim-1,dimw>; using LocalGeometry=Mock::Geometry<dim-1,dim>;
  using ctype=double; using LocalCoordinate=FieldVector<double,dim-1>; using GlobalCoordinate=FieldVector<double,dimw>;
  static constexpr int mydimension=dim-1, dimensionworld=dimw, coorddimension=dimw;
  Intersection(){}
  Intersection(const GV& gv,int e,int f): g_(gv.g_),v_(gv.v_),e_(e),f_(f){}
  Entity inside() const { return {g_,e_}; }
  bool neighbor() const { return g_->views[v_].nb[pos()][f_].first>=0; }
  bool boundary() const { return !neighbor(); }
  Entity outside() const { assert(neighbor()); return {g_,g_->views[v_].nb[pos()][f_].first}; }
  int indexInInside() const { return f_; }
  int indexInOutside() const { assert(neighbor()); return g_->views[v_].nb[pos()][f_].second; }
  bool conforming() const { return true; }
  size_t boundarySegmentIndex() const { return g_->uid(e_,f_,1); }
  GeometryType type() const { return ReferenceElements<double,dim>::general(g_->el[e_].gt).type(f_,1); }
  Geometry geometry() const { return Mock::Entity<1,dim,dimw,single>(g_,e_,f_).geometry(); }
  LocalGeometry geometryInInside() const { auto re=ReferenceElements<double,dim>::general(g_->el[e_].gt); std::vector<FieldVector<double,dim>> c; for(int k=0;k<re.size(f_,1,dim);k++) c.push_back(re.position(re.subEntity(f_,1,k,dim),dim)); return LocalGeometry(type(),std::move(c)); }
  LocalGeometry geometryInOutside() const {
    auto n=g_->views[v_].nb[pos()][f_]; auto re=ReferenceElements<double,dim>::general(g_->el[e_].gt); auto ro=ReferenceElements<double,dim>::general(g_->el[n.first].gt); std::vector<FieldVector<double,dim>> c;
    for(int k=0;k<re.size(f_,1,dim);k++){ auto v=g_->el[e_].v[re.subEntity(f_,1,k,dim)]; int j=0; while(g_->el[n.first].v[j]!=v) j++; c.push_back(ro.position(j,dim)); } return LocalGeometry(type(),std::move(c)); }
  GlobalCoordinate integrationOuterNormal(const LocalCoordinate& l) const { // |detJ| J^-T n_ref  (dim==dimw)
    auto re=ReferenceElements<double,dim>::general(g_->el[e_].gt); auto geo=inside().geometry(); auto x=geometryInInside().global(l); auto n=re.integrationOuterNormal(f_); auto Jit=geo.jacobianInverseTransposed(x); double d=geo.integrationElement(x);
    GlobalCoordinate r(0.0); for(int i=0;i<dimw;i++) for(int j=0;j<dim;j++) r[i]+=d*Jit[i][j]*n[j]; return r; }
  GlobalCoordinate outerNormal(const LocalCoordinate& l) const { return integrationOuterNormal(l); }
  GlobalCoordinate unitOuterNormal(const LocalCoordinate& l) const { auto n=integrationOuterNormal(l); double s=0; for(int i=0;i<dimw;i++) s+=n[i]*n[i]; s=std::sqrt(s); for(int i=0;i<dimw;i++) n[i]/=s; return n; }
  GlobalCoordinate centerUnitOuterNormal() const { if constexpr(dim==1) return unitOuterNormal(LocalCoordinate()); else return unitOuterNormal(ReferenceElements<double,dim-1>::general(type()).position(0,0)); }
  bool operator==(const Intersection& o) const { return g_==o.g_&&v_==o.v_&&e_==o.e_&&f_==o.f_; }
  bool operator!=(const Intersection& o) const { return !(*this==o); }
  int pos() const { return g_->views[v_].pos[e_]; }
  const Grid<dim,dimw,single>* g_=nullptr; int v_=-1,e_=-1,f_=0;
};

template<class T> struct It {   // iterator holding its current object
  using value_type=T; using pointer=const T*; using difference_type=std::ptrdiff_t; using iterator_category=std::forward_iterator_tag;
#ifdef VBYVALUE   // grids may also return temporary objects
  using reference=T; T operator*() const { return cur; } const T* operator->() const { return &cur; }
#else
  using reference=const T&; const T& operator*() const { return cur; } const T* operator->() const { return &cur; }
#endif
  T cur;
};
template<int dim,int dimw,int single> struct ElementIterator : It<Entity<0,dim,dimw,single>> {
  using Entity=Mock::Entity<0,dim,dimw,single>;
  ElementIterator(){} ElementIterator(const GridView<dim,dimw,single>& gv,int p): g(gv.g_),v(gv.v_),p(p){ set(); }
  void set(){ auto& l=g->views[v].elems; if(p<int(l.size())) this->cur=Entity(g,l[p]); }
  ElementIterator& operator++(){ ++p; set(); return *this; }
  ElementIterator operator++(int){ auto t=*this; ++*this; return t; }
  bool operator==(const ElementIterator& o) const { return p==o.p && v==o.v && g==o.g; } bool operator!=(const ElementIterator& o) const { return !(*this==o); }
  const Grid<dim,dimw,single>* g=nullptr; int v=0,p=0;
};
template<int dim,int dimw,int single> struct IntersectionIterator : It<Intersection<dim,dimw,single>> {
  using Intersection=Mock::Intersection<dim,dimw,single>;
  IntersectionIterator(){} IntersectionIterator(const GridView<dim,dimw,single>& gv,int e,int f){ this->cur=Intersection(gv,e,f); }
  IntersectionIterator& operator++(){ ++this->cur.f_; return *this; }
  IntersectionIterator operator++(int){ auto t=*this; ++*this; return t; }
  bool operator==(const IntersectionIterator& o) const { return this->cur==o.cur; } bool operator!=(const IntersectionIterator& o) const { return !(*this==o); }
};

template<int dim,int dimw,int single> struct ViewData; 
template<int dim,int dimw,int single> class IndexSet {
public:
  static constexpr int dimension=dim;
  using IndexType=unsigned int; using Types=std::vector<GeometryType>; using G=Grid<dim,dimw,single>;
  template<int c> struct Codim { using Entity=Mock::Entity<c,dim,dimw,single>; };
  template<int c> IndexType index(const Entity<c,dim,dimw,single>& e) const { if constexpr(c==0) return subIndex(e,0,0); else return at(e.e_,c,e.i_); }
  IndexType subIndex(const Entity<0,dim,dimw,single>& e,int i,unsigned codim) const { return at(e.e_,codim,i); }
  template<int c> IndexType subIndex(const Entity<c,dim,dimw,single>& e,int i,unsigned codim) const { auto re=ReferenceElements<double,dim>::general(e.g_->el[e.e_].gt); return at(e.e_,codim,re.subEntity(e.i_,c,i,codim)); }
  size_t size(GeometryType gt) const { if(int(gt.dim())>dim || gt.isNone()) return 0; return count[GlobalGeometryTypeIndex::index(gt)]; }
  size_t size(int codim) const { size_t s=0; for(auto t: types_[codim]) s+=size(t); return s; }
  const Types& types(int codim) const { return types_[codim]; }
  template<int c> bool contains(const Entity<c,dim,dimw,single>& e) const { return e.g_==g && e.e_>=0 && pos()[e.e_]>=0; }
  // apply a permutation to the indices of all entities of one geometry type
  void renumber(GeometryType gt,const std::vector<unsigned>& perm){ int codim=dim-gt.dim(); assert(perm.size()==size(gt));
    for(size_t p=0;p<idx.size();p++){ auto re=ReferenceElements<double,dim>::general(g->el[g->views[v].elems[p]].gt); for(int i=0;i<re.size(codim);i++) if(re.type(i,codim)==gt) idx[p][codim][i]=perm[idx[p][codim][i]]; } }
  IndexType at(int e,unsigned codim,int i) const { assert(e>=0 && pos()[e]>=0 && codim<=dim); assert(i>=0 && i<int(idx[pos()[e]][codim].size())); return idx[pos()[e]][codim][i]; }
  const std::vector<int>& pos() const { return g->views[v].pos; }
  const G* g=nullptr; int v=0;
  std::vector<std::array<std::vector<unsigned>,dim+1>> idx; // position in view, codim, local number
  std::array<size_t,GlobalGeometryTypeIndex::size(dim)> count{};
  std::array<Types,dim+1> types_;
};

template<int dim,int dimw,int single> struct IdSet {
  static constexpr int dimension=dim;
  using IdType=size_t; const Grid<dim,dimw,single>* g;
  template<int c> IdType id(const Entity<c,dim,dimw,single>& e) const { return get(e.e_,e.i_,c); }
  IdType subId(const Entity<0,dim,dimw,single>& e,int i,unsigned codim) const { return get(e.e_,i,codim); }
  IdType get(int e,int i,unsigned codim) const { if(codim==dim) return g->vid[g->el[e].v[i]]; return g->uid(e,i,codim); }
};

template<int dim,int dimw,int single> struct ViewData {
  std::vector<int> elems, pos; // element numbers; position of each grid element (-1: not contained)
  std::vector<std::vector<std::pair<int,int>>> nb;
  IndexSet<dim,dimw,single> is;
};

template<int dim,int dimw,int single> class Grid {
public:
  static constexpr int dimension=dim, dimensionworld=dimw;
  using ctype=double; using GlobalIdSet=IdSet<dim,dimw,single>; using LocalIdSet=GlobalIdSet;
  using LeafGridView=GridView<dim,dimw,single>; using LevelGridView=LeafGridView;
  using LeafIndexSet=IndexSet<dim,dimw,single>; using LevelIndexSet=LeafIndexSet;
  template<int c> struct Codim { using Entity=Mock::Entity<c,dim,dimw,single>; using EntitySeed=typename Entity::EntitySeed; using Geometry=typename Entity::Geometry; using LocalGeometry=Mock::Geometry<dim-c,dim>; };
  struct Traits { template<int c> using Codim=typename Grid::template Codim<c>; };
  using LeafIntersection=Intersection<dim,dimw,single>;
  struct HierarchicIterator : It<Entity<0,dim,dimw,single>> {
    std::vector<int> todo; int maxLevel=-1; const Grid* g=nullptr;
    HierarchicIterator(){}
    HierarchicIterator(const Grid* g,int e,int maxLevel): maxLevel(maxLevel),g(g){ if(maxLevel>=0){ push(e); next(); } }
    void push(int e){ auto& c=g->el[e].children; for(int i=int(c.size())-1;i>=0;i--) if(g->el[c[i]].level<=maxLevel) todo.push_back(c[i]); }
    void next(){ if(todo.empty()) this->cur=Entity<0,dim,dimw,single>(); else { int e=todo.back(); todo.pop_back(); this->cur=Entity<0,dim,dimw,single>(g,e); push(e); } }
    HierarchicIterator& operator++(){ next(); return *this; }
    bool operator==(const HierarchicIterator& o) const { return this->cur.e_==o.cur.e_; } bool operator!=(const HierarchicIterator& o) const { return !(*this==o); }
  };
  struct Elem { GeometryType gt; std::vector<int> v; int father=-1; std::vector<int> children; int level=0; std::vector<FieldVector<double,dim>> inFather; };
  std::vector<FieldVector<double,dimw>> x; std::vector<size_t> vid; std::vector<Elem> el;
  std::vector<ViewData<dim,dimw,single>> views; // 0: leaf, 1+l: level l
  std::vector<std::array<std::vector<int>,dim+1>> uid_;
  GlobalIdSet ids;
  Grid(){ ids.g=this; }
  Grid(const Grid&)=delete;
  int vertex(const FieldVector<double,dimw>& p){ x.push_back(p); vid.push_back(100+x.size()); return x.size()-1; }
  int element(GeometryType gt,std::vector<int> v){ Elem e; e.gt=gt; e.v=std::move(v); el.push_back(e); return el.size()-1; }
  int child(int father,GeometryType gt,std::vector<int> v,std::vector<FieldVector<double,dim>> inFather){ Elem e; e.gt=gt; e.v=std::move(v); e.father=father; e.level=el[father].level+1; e.inFather=std::move(inFather); el.push_back(e); el[father].children.push_back(el.size()-1); return el.size()-1; }
  void finalize(){
    int maxl=0; for(auto& e: el) maxl=std::max(maxl,e.level);
    uid_.resize(el.size());
    for(int c=0;c<=dim;c++){ std::vector<std::vector<int>> keys;
      for(size_t e=0;e<el.size();e++){ auto re=ReferenceElements<double,dim>::general(el[e].gt); assert(int(el[e].v.size())==re.size(dim));
        for(int i=0;i<re.size(c);i++){ std::vector<int> k; for(int j=0;j<re.size(i,c,dim);j++) k.push_back(el[e].v[re.subEntity(i,c,j,dim)]); std::sort(k.begin(),k.end());
          int id=-1; if(c==0) { id=e; } else { if(c==dim) id=k[0]; else { for(size_t q=0;q<keys.size();q++) if(keys[q]==k) id=q; if(id<0){ id=keys.size(); keys.push_back(k);} } }
          uid_[e][c].push_back(id); } } }
    views.resize(maxl+2);
    for(int w=0;w<maxl+2;w++){ auto& V=views[w]; V.pos.assign(el.size(),-1);
      for(size_t e=0;e<el.size();e++) if(w==0 ? el[e].children.empty() : el[e].level==w-1){ V.pos[e]=V.elems.size(); V.elems.push_back(e); }
      auto& S=V.is; S.g=this; S.v=w; S.idx.resize(V.elems.size());
      for(int c=0;c<=dim;c++){ std::vector<int> seen; std::vector<unsigned> num;
        for(size_t p=0;p<V.elems.size();p++){ int e=V.elems[p]; auto re=ReferenceElements<double,dim>::general(el[e].gt);
          for(int i=0;i<re.size(c);i++){ int u=uid_[e][c][i]; int q=-1; for(size_t s=0;s<seen.size();s++) if(seen[s]==u) q=s;
            if(q<0){ auto t=re.type(i,c); auto& n=S.count[GlobalGeometryTypeIndex::index(t)]; if(n==0) S.types_[c].push_back(t); q=seen.size(); seen.push_back(u); num.push_back(n++); }
            S.idx[p][c].push_back(num[q]); } } }
      V.nb.resize(V.elems.size());
      for(size_t p=0;p<V.elems.size();p++){ int e=V.elems[p]; for(size_t f=0;f<uid_[e][1].size();f++){ std::pair<int,int> n(-1,-1);
          for(int o: V.elems) if(o!=e) for(size_t h=0;h<uid_[o][1].size();h++) if(uid_[o][1][h]==uid_[e][1][f]) n={o,int(h)};
          V.nb[p].push_back(n); } }
    }
  }
  int uid(int e,int i,int c) const { return 1000*(c+1)+uid_[e][c][i]; }
  bool hasBoundary(int e) const { auto& V=views[0].pos[e]>=0 ? views[0] : views[1+el[e].level]; for(auto& n: V.nb[V.pos[e]]) if(n.first<0) return true; return false; }
  LeafGridView leafGridView() const { return {this,0}; }
  LevelGridView levelGridView(int l) const { return {this,l+1}; }
  int maxLevel() const { return int(views.size())-2; }
  const GlobalIdSet& globalIdSet() const { return ids; } const GlobalIdSet& localIdSet() const { return ids; }
  const LeafIndexSet& leafIndexSet() const { return views[0].is; }
  Entity<0,dim,dimw,single> entity(int e) const { return {this,e}; }
};

template<int dim,int dimw,int single> class GridView {
public:
  static constexpr int dimension=dim, dimensionworld=dimw; static constexpr bool conforming=true;
  using ctype=double; using Grid=Mock::Grid<dim,dimw,single>; using IndexSet=Mock::IndexSet<dim,dimw,single>;
  using Intersection=Mock::Intersection<dim,dimw,single>; using IntersectionIterator=Mock::IntersectionIterator<dim,dimw,single>;
  template<int c> struct Codim { using Entity=Mock::Entity<c,dim,dimw,single>; using Geometry=typename Entity::Geometry; using LocalGeometry=Mock::Geometry<dim-c,dim>; using Iterator=ElementIterator<dim,dimw,single>;
    template<PartitionIteratorType pit> struct Partition { using Iterator=ElementIterator<dim,dimw,single>; }; };
  struct Traits { using Grid=Mock::Grid<dim,dimw,single>; using IndexSet=Mock::IndexSet<dim,dimw,single>; using Intersection=Mock::Intersection<dim,dimw,single>; };
  GridView(){} GridView(const Grid* g,int v): g_(g),v_(v){}
  const Grid& grid() const { return *g_; } const IndexSet& indexSet() const { return g_->views[v_].is; }
  template<int c> auto begin() const { static_assert(c==0); return ElementIterator<dim,dimw,single>(*this,0); }
  template<int c> auto end() const { static_assert(c==0); return ElementIterator<dim,dimw,single>(*this,g_->views[v_].elems.size()); }
  template<int c,PartitionIteratorType pit> auto begin() const { return begin<c>(); } template<int c,PartitionIteratorType pit> auto end() const { return end<c>(); }
  auto ibegin(const typename Codim<0>::Entity& e) const { return IntersectionIterator(*this,e.e_,0); }
  auto iend(const typename Codim<0>::Entity& e) const { return IntersectionIterator(*this,e.e_,ReferenceElements<double,dim>::general(e.type()).size(1)); }
  int size(int codim) const { return indexSet().size(codim); } int size(const GeometryType& t) const { return indexSet().size(t); }
  template<class E> bool contains(const E& e) const { return indexSet().contains(e); }
  int overlapSize(int) const { return 0; } int ghostSize(int) const { return 0; } bool isConforming() const { return true; }
  bool operator==(const GridView& o) const { return g_==o.g_&&v_==o.v_; }
  const Grid* g_=nullptr; int v_=0;
};
template<int d,int w,int s> auto elements(const GridView<d,w,s>& gv){ return IteratorRange<ElementIterator<d,w,s>>(gv.template begin<0>(),gv.template end<0>()); }
template<int d,int w,int s,unsigned p> auto elements(const GridView<d,w,s>& gv,PartitionSet<p>){ return elements(gv); }
template<int d,int w,int s> auto intersections(const GridView<d,w,s>& gv,const Entity<0,d,w,s>& e){ return IteratorRange<IntersectionIterator<d,w,s>>(gv.ibegin(e),gv.iend(e)); }
template<int d,int w,int s> auto descendantElements(const Entity<0,d,w,s>& e,int maxLevel){ return IteratorRange<decltype(e.hbegin(0))>(e.hbegin(maxLevel),e.hend(maxLevel)); }
} // namespace Dune::Mock
namespace Dune::Capabilities {
template<int d,int w,int s> struct hasSingleGeometryType<Mock::Grid<d,w,s>> { static const bool v= s>0; static const unsigned topologyId= s>0?s-1:0; };
template<int d,int w,int s> struct hasSingleGeometryType<const Mock::Grid<d,w,s>> { static const bool v= s>0; static const unsigned topologyId= s>0?s-1:0; };
}
