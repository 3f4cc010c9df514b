// Symbolic-execution stand-in for dune-geometry's quadrature rules, whose tables live in a compiled library: Gauss-Legendre
// on lines, tensor products on cubes and prisms, collapsed tensor products on simplices and pyramids.  Trusted environment; native
// replays use the real rules.
#ifndef DUNE_GEOMETRY_QUADRATURERULES_HH
#define DUNE_GEOMETRY_QUADRATURERULES_HH
#include <vector>
#include <map>
#include <limits>
#include <dune/common/fvector.hh>
#include <dune/common/exceptions.hh>
#include <dune/geometry/type.hh>
#include <dune/geometry/typeindex.hh>
namespace Dune {
class QuadratureOrderOutOfRange : public NotImplemented {};
template<typename ct,int dim> class QuadraturePoint { FieldVector<ct,dim> local; ct weight_; public:
  enum { dimension=dim }; typedef ct Field; typedef FieldVector<ct,dim> Vector;
  QuadraturePoint(const Vector& x,ct w): local(x), weight_(w) {}
  const Vector& position() const { return local; } const ct& weight() const { return weight_; } };
namespace QuadratureType { enum Enum { GaussLegendre=0, GaussJacobi_1_0=1, GaussJacobi_2_0=2, GaussJacobi_n_0=3, GaussLobatto=4, GaussRadauLeft=5, GaussRadauRight=6, size }; }
template<typename ct,int dim> class QuadratureRule : public std::vector<QuadraturePoint<ct,dim>> { GeometryType t_; int order_; public:
  QuadratureRule(): order_(-1) {} QuadratureRule(GeometryType t,int o): t_(t), order_(o) {} virtual ~QuadratureRule(){}
  enum { d=dim }; typedef ct CoordType; int order() const { return order_; } GeometryType type() const { return t_; }
  typedef typename std::vector<QuadraturePoint<ct,dim>>::const_iterator iterator; };
namespace VerifQuad {
  inline const double* gauss(int n){ static const double t[8][16]={
    {0.5,1.0},
    {0.21132486540518713,0.7886751345948129,0.5,0.5},
    {0.1127016653792583,0.5,0.8872983346207417,0.27777777777777785,0.4444444444444444,0.27777777777777785},
    {0.06943184420297371,0.33000947820757187,0.6699905217924281,0.9305681557970262,0.17392742256872679,0.3260725774312732,0.3260725774312732,0.17392742256872679},
    {0.04691007703066802,0.23076534494715845,0.5,0.7692346550528415,0.9530899229693319,0.11846344252809464,0.23931433524968315,0.28444444444444433,0.23931433524968315,0.11846344252809464},
    {0.03376524289842403,0.16939530676686776,0.38069040695840156,0.6193095930415985,0.8306046932331322,0.9662347571015759,0.08566224618958514,0.18038078652406936,0.23395696728634552,0.23395696728634552,0.18038078652406936,0.08566224618958514},
    {0.0254460438286207,0.12923440720030277,0.2970774243113014,0.5,0.7029225756886985,0.8707655927996972,0.9745539561713793,0.06474248308443487,0.13985269574463843,0.19091502525255935,0.20897959183673465,0.19091502525255935,0.13985269574463843,0.06474248308443487},
    {0.019855071751231912,0.10166676129318664,0.2372337950418355,0.4082826787521751,0.5917173212478248,0.7627662049581645,0.8983332387068134,0.9801449282487681,0.05061426814518853,0.11119051722668721,0.15685332293894344,0.18134189168918083,0.18134189168918083,0.15685332293894344,0.11119051722668721,0.05061426814518853},
  }; return t[n-1]; }
}
template<typename ctype,int dim> class QuadratureRules { public:
  typedef QuadratureRule<ctype,dim> Rule;
  static unsigned maxOrder(const GeometryType&,QuadratureType::Enum=QuadratureType::GaussLegendre){ return 12; }
  static const Rule& rule(const GeometryType::Id id,int p,QuadratureType::Enum=QuadratureType::GaussLegendre){ return rule(GeometryType(id),p); }
  static const Rule& rule(const GeometryType& t,int p,QuadratureType::Enum=QuadratureType::GaussLegendre){
    static std::map<std::pair<unsigned,int>,Rule> cache; auto key=std::make_pair(unsigned(LocalGeometryTypeIndex::index(t)),p); auto it=cache.find(key); if(it!=cache.end()) return it->second;
    if(p>12) DUNE_THROW(QuadratureOrderOutOfRange,"order too large for the stand-in");
    int n=(p+dim)/2+1; if(n<1) n=1; if(n>8) n=8; auto g=VerifQuad::gauss(n); Rule r(t,p);
    int N=1; for(int k=0;k<dim;k++) N*=n;
    for(int q=0;q<N;q++){ FieldVector<ctype,dim> x; ctype w=1; int c=q;
      for(int k=0;k<dim;k++){ int i=c%n; c/=n; x[k]=g[i]; w*=g[n+i]; }
      // collapse direction by direction
      for(int k=1;k<dim;k++) if(!t.isCube() && (t.isSimplex() || (t.isPrism() && k==1) || (t.isPyramid() && k==2))){ for(int j=0;j<k;j++){ x[j]*=1-x[k]; w*=1-x[k]; } }
      r.push_back({x,w}); }
    return cache.emplace(key,r).first->second; } };
} // namespace Dune
#endif
