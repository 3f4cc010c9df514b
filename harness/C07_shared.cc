// TITLE: degrees of freedom shared by two elements are the same functional from both sides; functional descriptors describe it; traces agree
// BOUNDS: two simplices with arbitrary orientations and vertex ids, all (1d, 2d) or one (3d) vertices moved arbitrarily by up to 1/4 per coordinate; interpolated functions are arbitrary quadratic polynomials; traces: arbitrary point of the common facet on a fixed mesh
// ASSUME: grid replaced by the mock grid of /verif/harness/mockgrid.hh; double arithmetic is modelled by exact reals, roots by algebraic numbers
// CASE: morley -DVB=morley -DVDIM=2 -DVMESH=Tri2
// CASE: hermite1 -DVB=hermite -DVDIM=1 -DVMESH=Line2 -DVC1
// CASE: hermite2 -DVB=hermite -DVDIM=2 -DVMESH=Tri2
// CASE: rhermite2 -DVB=reducedhermite -DVDIM=2 -DVMESH=Tri2
// CASE: hermite3 -DVB=hermite -DVDIM=3 -DVMESH=Tet2 -DVMOVE=1 -DVORI=2
// CASE: argyris -DVB=argyris -DVDIM=2 -DVMESH=Tri2 -DVORI=2
// CASE-THOROUGH: argyris_all -DVB=argyris -DVDIM=2 -DVMESH=Tri2
// CASE: hermite1_trace -DVB=hermite -DVDIM=1 -DVMESH=Line2 -DVC1 -DVTRACE
// CASE: hermite2_trace -DVB=hermite -DVDIM=2 -DVMESH=Tri2 -DVMOVE=1 -DVTRACE
// CASE: rhermite2_trace -DVB=reducedhermite -DVDIM=2 -DVMESH=Tri2 -DVMOVE=1 -DVTRACE
// CASE: hermite3_trace -DVB=hermite -DVDIM=3 -DVMESH=Tet2 -DVMOVE=0 -DVTRACE -DVORI=2
// CASE: argyris_trace -DVB=argyris -DVDIM=2 -DVMESH=Tri2 -DVMOVE=0 -DVC1 -DVTRACE
#include "leafbases.hh"
using namespace Dune; using namespace Dune::Functions; using std::size_t;
using Grd=Mock::Grid<VDIM,VDIM,1>; using X=FieldVector<double,VDIM>; using M=FieldMatrix<double,VDIM,VDIM>; using G=FieldMatrix<double,1,VDIM>;
#ifndef VMOVE
#define VMOVE 8
#endif
#ifndef VORI
#define VORI 3
#endif
// a quadratic polynomial in global coordinates as a differentiable function on an element
struct Quad { double c; X b; M a; double v(const X& y) const { X t; a.mv(y,t); return c+(b*y)+0.5*(t*y); } X d(const X& y) const { X t; a.mv(y,t); return b+t; } };
template<class E> struct Fn { const Quad* q; const E* e; double operator()(const X& x) const { return q->v(e->geometry().global(x)); }
  struct DFn { Fn f; G operator()(const X& x) const { G r; auto g=f.q->d(f.e->geometry().global(x)); for(int k=0;k<VDIM;k++) r[0][k]=g[k]; return r; } friend auto derivative(const DFn& a){ return [f=a.f](const X&){ return f.q->a; }; } };
  friend DFn derivative(const Fn& f){ return {f}; } };
extern "C" void harness(){
  Grd g; Mock::addMesh(g,Mock::VMESH,VORI); int m=0; for(size_t v=1;v<g.x.size() && m<VMOVE;v++,m++) for(int k=0;k<VDIM;k++) g.x[v][k]+=symReal("move",-0.25,0.25);
  { std::vector<int> sh; for(size_t v=0;v<g.x.size();v++){ int c=0; for(auto& e: g.el) for(int u: e.v) c+= u==int(v); if(c>1) sh.push_back(v); } if(sh.size()==2 && symBool("swapIds")) std::swap(g.vid[sh[0]],g.vid[sh[1]]); }
  g.finalize();
  auto gv=g.leafGridView(); using namespace BasisFactory; auto b=makeBasis(gv,VBASIS); auto l0=b.localView(),l1=b.localView(); auto it=gv.begin<0>(); auto e0=*it; ++it; auto e1=*it; l0.bind(e0); l1.bind(e1);
  auto& fe0=l0.tree().finiteElement(); auto& fe1=l1.tree().finiteElement(); size_t n=fe0.size(); bool any=false;
#ifndef VTRACE
  Quad q; q.c=symReal("c",-2,2); for(int k=0;k<VDIM;k++){ q.b[k]=symReal("b",-2,2); for(int p=0;p<=k;p++) q.a[k][p]=q.a[p][k]=symReal("a",-2,2); }
  std::vector<double> c0,c1; Fn<decltype(e0)> f0{&q,&e0},f1{&q,&e1}; fe0.localInterpolation().interpolate(f0,c0); fe1.localInterpolation().interpolate(f1,c1);
  for(size_t i=0;i<n;i++) for(size_t j=0;j<n;j++) if(l0.index(i)==l1.index(j)){ any=true; CHECK_EQ(c0[i],c1[j],"a shared degree of freedom is the same functional from both sides"); auto& a=fe0.localInterpolation().functionalDescriptor(i); auto& d=fe1.localInterpolation().functionalDescriptor(j); CHECK(a.normalDerivativeOrder()==d.normalDerivativeOrder() && a.partialDerivativeOrder()==d.partialDerivativeOrder(),"same descriptor from both sides"); }
  Quad lin; lin.c=0; lin.b=X(1.0); lin.a=M(0.0); std::vector<double> ch; Fn<decltype(e0)> fh{&lin,&e0}; fe0.localInterpolation().interpolate(fh,ch);
  // descriptors: value, partial derivative (with positive scaling) or normal derivative (up to orientation)
  auto re=referenceElement<double,VDIM>(e0.type());
  for(size_t i=0;i<n;i++){ auto& d=fe0.localInterpolation().functionalDescriptor(i); auto key=fe0.localCoefficients().localKey(i); auto y=e0.geometry().global(re.position(key.subEntity(),key.codim()));
    int tot=0; for(auto o: d.partialDerivativeOrder()) tot+=o; CHECK(d.isPartialDerivative()==(tot>0) && d.isNormalDerivative()==(d.normalDerivativeOrder()>0),"descriptor predicates");
    if(d.isNormalDerivative()){ CHECK(VDIM==2 && key.codim()==1 && d.normalDerivativeOrder()==1,"normal derivative on an edge"); if constexpr(VDIM==2){ auto p0=e0.geometry().global(re.position(re.subEntity(key.subEntity(),1,0,2),2)), p1=e0.geometry().global(re.position(re.subEntity(key.subEntity(),1,1,2),2)); auto t=p1-p0; double nd=q.d(y)[0]*t[1]-q.d(y)[1]*t[0]; CHECK_EQ(c0[i]*c0[i]*t.two_norm2(),nd*nd,"normal derivative"); } }
    else if(tot==0) CHECK_EQ(c0[i],q.v(y),"point evaluation");
    else { double v=0; int f=-1,s=-1; for(int k=0;k<VDIM;k++) for(unsigned o=0;o<d.partialDerivativeOrder()[k];o++) (f<0?f:s)=k; v= tot==1?q.d(y)[f]:q.a[f][s]; double h=0; for(size_t j=0;j<n;j++){ auto k2=fe0.localCoefficients().localKey(j); auto& d2=fe0.localInterpolation().functionalDescriptor(j); int t2=0; for(auto o: d2.partialDerivativeOrder()) t2+=o; if(t2==1 && k2.subEntity()==key.subEntity() && k2.codim()==key.codim()) h=ch[j]; } CHECK(h>0,"derivative degrees of freedom have a positive scaling"); CHECK_EQ(c0[i],tot==1?v*h:v*h*h,"partial derivative"); } }
#else
  std::vector<FieldVector<double,1>> v0,v1; std::vector<G> d0,d1; FieldVector<double,VDIM-1> s; double sum=0; for(int k=0;k<VDIM-1;k++){ s[k]=symReal("s",0,1); sum+=s[k]; } if(VDIM==3) ASSUME(sum<=1);
  for(auto is: intersections(gv,e0)) if(is.neighbor()){ auto x0=is.geometryInInside().global(s),x1=is.geometryInOutside().global(s); fe0.localBasis().evaluateFunction(x0,v0); fe1.localBasis().evaluateFunction(x1,v1); fe0.localBasis().evaluateJacobian(x0,d0); fe1.localBasis().evaluateJacobian(x1,d1);
    auto glob=[&](auto& e,G& d){ auto J=e.geometry().jacobianInverse(x0); G r(0.0); for(int k=0;k<VDIM;k++) for(int p=0;p<VDIM;p++) r[0][k]+=d[0][p]*J[p][k]; return r; };
    for(size_t i=0;i<n;i++){ double t=0; G gr(0.0); for(size_t j=0;j<n;j++) if(l0.index(i)==l1.index(j)){ any=true; t+=v1[j]; gr+=glob(e1,d1[j]); } CHECK_EQ(double(v0[i]),t,"basis functions are continuous across the facet");
#ifdef VC1
      auto a=glob(e0,d0[i]); for(int k=0;k<VDIM;k++) CHECK_EQ(a[0][k],gr[0][k],"gradients are continuous across the facet");
#endif
    } }
#endif
  CHECK(any,"degrees of freedom are shared"); REACH("end");
}
