// TITLE: shape functions, Jacobians and interpolation on an element are the Piola transforms of those on the reference element
// BOUNDS: one element with arbitrary (2d: all vertices moved by up to 1/4 per coordinate; 3d: one vertex) geometry and arbitrary orientation, arbitrary evaluation point, arbitrary affine vector fields as interpolated functions
// ASSUME: grid replaced by the mock grid of /verif/harness/mockgrid.hh; double arithmetic is modelled by exact reals; interpolation duality is checked up to 1e-9 because quadrature points are rounded
// CASE: tri_rt0 -DVB=rt -DVK=0 -DVDIM=2 -DVMESH=Tri1 -DVSINGLE=1 -DVAFFINE
// CASE: tri_rt1 -DVB=rt -DVK=1 -DVDIM=2 -DVMESH=Tri1 -DVSINGLE=1 -DVAFFINE
// CASE: quad_rt1 -DVB=rt -DVK=1 -DVDIM=2 -DVMESH=Quad1 -DVSINGLE=4
// CASE: tri_bdm2 -DVB=bdm -DVK=2 -DVDIM=2 -DVMESH=Tri1 -DVSINGLE=1 -DVAFFINE
// CASE: quad_bdm1 -DVB=bdm -DVK=1 -DVDIM=2 -DVMESH=Quad1 -DVSINGLE=4
// CASE: tri_ned -DVB=nedelec -DVDIM=2 -DVMESH=Tri1 -DVSINGLE=1 -DVAFFINE
// CASE: quad_ned -DVB=nedelec -DVDIM=2 -DVMESH=Quad1 -DVSINGLE=4
// CASE: tet_rt0 -DVB=rt -DVK=0 -DVDIM=3 -DVMESH=Tet1 -DVSINGLE=1 -DVAFFINE
// CASE: hex_rt0 -DVB=rt -DVK=0 -DVDIM=3 -DVMESH=Hex1 -DVSINGLE=8
// CASE: tet_ned -DVB=nedelec -DVDIM=3 -DVMESH=Tet1 -DVSINGLE=1 -DVAFFINE
// CASE-THOROUGH: hex_ned_all -DVB=nedelec -DVDIM=3 -DVMESH=Hex1 -DVSINGLE=8
// CASE: hex_ned -DVB=nedelec -DVDIM=3 -DVMESH=Hex1 -DVSINGLE=8 -DVPO=0
// CASE: quad_rt2 -DVB=rt -DVK=2 -DVDIM=2 -DVMESH=Quad1 -DVSINGLE=4 -DVNODERIV
// CASE: quad_bdm2 -DVB=bdm -DVK=2 -DVDIM=2 -DVMESH=Quad1 -DVSINGLE=4 -DVNODERIV
#include "leafbases.hh"
using namespace Dune; using namespace Dune::Functions; using std::size_t;
using Grd=Mock::Grid<VDIM,VDIM,VSINGLE>; using X=FieldVector<double,VDIM>; using M=FieldMatrix<double,VDIM,VDIM>;
#ifndef VMOVE
#define VMOVE (VDIM==2?8:1)
#endif
#ifndef VPO
#define VPO 1
#endif
constexpr bool curl= VBID==9;
static double det(const M& A){ if constexpr(VDIM==2) return A[0][0]*A[1][1]-A[0][1]*A[1][0]; else return A[0][0]*(A[1][1]*A[2][2]-A[1][2]*A[2][1])-A[0][1]*(A[1][0]*A[2][2]-A[1][2]*A[2][0])+A[0][2]*(A[1][0]*A[2][1]-A[1][1]*A[2][0]); }
extern "C" void harness(){
  Grd g,r; Mock::addMesh(g,Mock::VMESH,VPO); int m=0;
  auto gt=g.el[0].gt; auto re=referenceElement<double,VDIM>(gt);
  // the reference element with the same vertex ids
  for(size_t v=0;v<g.x.size();v++) r.vertex(X(0.0));
  for(size_t i=0;i<g.el[0].v.size();i++) r.x[g.el[0].v[i]]=re.position(i,VDIM);
  r.element(gt,g.el[0].v);
  for(size_t v=1;v<g.x.size() && m<VMOVE;v++,m++) for(int k=0;k<VDIM;k++) g.x[v][k]+=symReal("move",-0.25,0.25);
  g.finalize(); r.finalize();
  auto gv=g.leafGridView(), rv=r.leafGridView(); using namespace BasisFactory; auto b=makeBasis(gv,VBASIS); auto rb=makeBasis(rv,VBASIS); auto l=b.localView(), rl=rb.localView();
  auto e=*gv.begin<0>(); l.bind(e); auto re0=*rv.begin<0>(); rl.bind(re0);
  auto& fe=l.tree().finiteElement(); auto& rfe=rl.tree().finiteElement();
  CHECK(fe.size()==rfe.size() && fe.type()==gt,"finite element of the element's type");
  X x; double sum=0; for(int k=0;k<VDIM;k++){ x[k]=symReal("x",0,1); sum+=x[k]; } if(gt.isSimplex()) ASSUME(sum<=1);
  auto J=e.geometry().jacobian(x); M A; for(int i=0;i<VDIM;i++) for(int j=0;j<VDIM;j++) A[i][j]=J[i][j];
  double D=std::abs(det(A));
  std::vector<X> v,w; fe.localBasis().evaluateFunction(x,v); rfe.localBasis().evaluateFunction(x,w); CHECK(v.size()==fe.size() && w.size()==fe.size(),"one value per shape function");
  for(size_t i=0;i<v.size();i++){ if(curl){ X t; A.mtv(v[i],t); for(int k=0;k<VDIM;k++) CHECK_EQ(t[k],w[i][k],"covariant Piola transform"); } else { X t; A.mv(w[i],t); for(int k=0;k<VDIM;k++) CHECK_EQ(v[i][k]*D,t[k],"contravariant Piola transform"); } }
  std::vector<FieldMatrix<double,VDIM,VDIM>> dv,dw; rfe.localBasis().evaluateJacobian(x,dw);
#if !defined VNODERIV
  // derivatives with respect to reference coordinates; on the reference element all polynomials are of degree <=2 in each variable
  { double h=0.25; for(int k=0;k<VDIM;k++){ auto xp=x,xm=x; xp[k]+=h; xm[k]-=h; std::vector<X> p,q; rfe.localBasis().evaluateFunction(xp,p); rfe.localBasis().evaluateFunction(xm,q); for(size_t i=0;i<p.size();i++) for(int c=0;c<VDIM;c++) CHECK_EQ((p[i][c]-q[i][c])/(2*h),dw[i][c][k],"Jacobian is the derivative of the values"); } }
#endif
#ifdef VAFFINE
  fe.localBasis().evaluateJacobian(x,dv);
  for(size_t i=0;i<dv.size();i++) for(int k=0;k<VDIM;k++){ X c,d,t; for(int a=0;a<VDIM;a++){ c[a]=dv[i][a][k]; d[a]=dw[i][a][k]; } if(curl){ A.mtv(c,t); for(int a=0;a<VDIM;a++) CHECK_EQ(t[a],d[a],"Jacobian of covariant transform"); } else { A.mv(d,t); for(int a=0;a<VDIM;a++) CHECK_EQ(c[a]*D,t[a],"Jacobian of contravariant transform"); } }
  for(unsigned k=0;k<VDIM;k++){ std::array<unsigned,VDIM> o{}; o[k]=1; std::vector<X> p; fe.localBasis().partial(o,x,p); CHECK(p.size()==v.size(),"one partial derivative per shape function"); for(size_t i=0;i<p.size();i++) for(int a=0;a<VDIM;a++) CHECK_EQ(p[i][a],dv[i][a][k],"partial is a column of the Jacobian"); }
#endif
  { std::vector<X> p; fe.localBasis().partial(std::array<unsigned,VDIM>{},x,p); for(size_t i=0;i<p.size();i++) for(int a=0;a<VDIM;a++) CHECK_EQ(p[i][a],v[i][a],"partial of order 0 is the value"); }
  // interpolation of an arbitrary affine field is that of its pull back
  X c0; M c1; for(int k=0;k<VDIM;k++){ c0[k]=symReal("c",-2,2); for(int q=0;q<VDIM;q++) c1[k][q]= q==k?symReal("c",-2,2):k-q; }
  auto F=[&](const X& y){ X z; c1.mv(y,z); z+=c0; return z; };
  auto pull=[&](const X& y){ auto JJ=e.geometry().jacobian(y); M B; for(int i=0;i<VDIM;i++) for(int j=0;j<VDIM;j++) B[i][j]=JJ[i][j]; X f=F(y),z; if(curl) B.mtv(f,z); else { double dd=det(B); if constexpr(VDIM==2){ z[0]=(B[1][1]*f[0]-B[0][1]*f[1]); z[1]=(B[0][0]*f[1]-B[1][0]*f[0]); if(dd<0) z*=-1; } else { B.solve(z,f); z*=std::abs(dd); } } return z; };
  std::vector<double> a,bb; fe.localInterpolation().interpolate(F,a); rfe.localInterpolation().interpolate(pull,bb); CHECK(a.size()==fe.size() && bb.size()==a.size(),"one coefficient per shape function");
  for(size_t i=0;i<a.size();i++) CHECK_EQ(a[i],bb[i],"interpolation is that of the pulled back function");
  // duality on the reference element
  for(size_t j=0;j<w.size();j++){ auto s=[&](const X& y){ std::vector<X> p; rfe.localBasis().evaluateFunction(y,p); return p[j]; }; rfe.localInterpolation().interpolate(s,bb); for(size_t i=0;i<bb.size();i++) CHECK(std::abs(bb[i]-(i==j))<1e-9,"interpolation is dual to the shape functions"); }
  REACH("end");
}
