// TITLE: normal (Raviart-Thomas, BDM) and tangential (Nedelec) components agree across facets; shape functions are Piola transforms; interpolation is dual
// BOUNDS: two elements sharing a facet with all (2d) or one (3d: -DVMOVE) vertices moved arbitrarily by up to 1/4 per coordinate from a fixed position, arbitrary orientations, arbitrary point of the facet or element; RT0, RT1, RT2, BDM1, BDM2, Nedelec first kind of order 1 on the element types they support
// ASSUME: grid replaced by the mock grid of /verif/harness/mockgrid.hh; double arithmetic is modelled by exact reals
// CASE: tri_rt0 -DVB=rt -DVK=0 -DVDIM=2 -DVMESH=Tri2 -DVSINGLE=1
// CASE: quad_rt0 -DVB=rt -DVK=0 -DVDIM=2 -DVMESH=Quad2 -DVSINGLE=4
// CASE: mixed_rt0 -DVB=rt -DVK=0 -DVDIM=2 -DVMESH=TriQuad
// CASE: tri_rt1 -DVB=rt -DVK=1 -DVDIM=2 -DVMESH=Tri2 -DVSINGLE=1
// CASE: quad_rt1 -DVB=rt -DVK=1 -DVDIM=2 -DVMESH=Quad2 -DVSINGLE=4
// CASE: tri_bdm1 -DVB=bdm -DVK=1 -DVDIM=2 -DVMESH=Tri2 -DVSINGLE=1
// CASE: quad_bdm1 -DVB=bdm -DVK=1 -DVDIM=2 -DVMESH=Quad2 -DVSINGLE=4
// CASE: tri_bdm2 -DVB=bdm -DVK=2 -DVDIM=2 -DVMESH=Tri2 -DVSINGLE=1
// CASE: tri_ned -DVB=nedelec -DVDIM=2 -DVMESH=Tri2 -DVSINGLE=1
// CASE: quad_ned -DVB=nedelec -DVDIM=2 -DVMESH=Quad2 -DVSINGLE=4
// CASE: mixed_ned -DVB=nedelec -DVDIM=2 -DVMESH=TriQuad
// CASE: quad_rt2 -DVB=rt -DVK=2 -DVDIM=2 -DVMESH=Quad2 -DVSINGLE=4
// CASE: tri_rt1_mirrored -DVB=rt -DVK=1 -DVDIM=2 -DVMESH=Tri2 -DVSINGLE=1 -DVMIRRORED
// CASE-THOROUGH: quad_rt1_mirrored -DVB=rt -DVK=1 -DVDIM=2 -DVMESH=Quad2 -DVSINGLE=4 -DVMIRRORED
// CASE-THOROUGH: tri_bdm1_mirrored -DVB=bdm -DVK=1 -DVDIM=2 -DVMESH=Tri2 -DVSINGLE=1 -DVMIRRORED
// CASE: quad_bdm1_mirrored -DVB=bdm -DVK=1 -DVDIM=2 -DVMESH=Quad2 -DVSINGLE=4 -DVMIRRORED
// CASE: tri_bdm2_mirrored -DVB=bdm -DVK=2 -DVDIM=2 -DVMESH=Tri2 -DVSINGLE=1 -DVMIRRORED
// CASE-THOROUGH: quad_rt2_mirrored -DVB=rt -DVK=2 -DVDIM=2 -DVMESH=Quad2 -DVSINGLE=4 -DVMIRRORED
// CASE: tet_rt0 -DVB=rt -DVK=0 -DVDIM=3 -DVMESH=Tet2 -DVSINGLE=1
// CASE: hex_rt0 -DVB=rt -DVK=0 -DVDIM=3 -DVMESH=Hex2 -DVSINGLE=8
// CASE: tet_ned -DVB=nedelec -DVDIM=3 -DVMESH=Tet2 -DVSINGLE=1
// CASE: hex_ned -DVB=nedelec -DVDIM=3 -DVMESH=Hex2 -DVSINGLE=8 -DVMOVE=0
// CASE-THOROUGH: hex_ned_moved -DVB=nedelec -DVDIM=3 -DVMESH=Hex2 -DVSINGLE=8
#include "leafbases.hh"
using namespace Dune; using namespace Dune::Functions; using std::size_t;
using Grd=Mock::Grid<VDIM,VDIM,VSINGLE>; using X=FieldVector<double,VDIM>;
#ifndef VORIENT
#define VORIENT (VDIM==2?3:2)
#endif
#ifndef VMOVE
#define VMOVE (VDIM==2?8:1)
#endif
constexpr bool curl= VBID==9;
extern "C" void harness(){
  Grd g; Mock::addMesh(g,Mock::VMESH,VORIENT);
  auto det=[&](int e){ auto& v=g.el[e].v; X a=g.x[v[1]]-g.x[v[0]],b=g.x[v[2]]-g.x[v[0]]; return a[0]*b[1]-a[1]*b[0]>0; };
  [[maybe_unused]] bool same= VDIM==3 || det(0)==det(1);
#ifdef VMIRRORED
  ASSUME(!same);
#endif
  int m=0; for(size_t v=1;v<g.x.size() && m<VMOVE;v++,m++) for(int k=0;k<VDIM;k++) g.x[v][k]+=symReal("move",-0.25,0.25); g.finalize();
  auto gv=g.leafGridView(); using namespace BasisFactory; auto b=makeBasis(gv,VBASIS); auto l0=b.localView(),l1=b.localView();
  FieldVector<double,VDIM-1> s; for(int k=0;k<VDIM-1;k++) s[k]=symReal("s",0,1);
  for(auto e: elements(gv)) for(auto is: intersections(gv,e)) if(is.neighbor()){ if(e.e_!=0) continue; l0.bind(e); auto o=is.outside(); l1.bind(o); auto key0=[&](size_t i){ return l0.tree().finiteElement().localCoefficients().localKey(i); }; auto x0=is.geometryInInside().global(s), x1=is.geometryInOutside().global(s);
    std::vector<X> v0,v1; l0.tree().finiteElement().localBasis().evaluateFunction(x0,v0); l1.tree().finiteElement().localBasis().evaluateFunction(x1,v1); CHECK(v0.size()==l0.size() && v1.size()==l1.size(),"one value per shape function");
    std::vector<X> dirs; if constexpr(curl){ auto J=is.geometry().jacobian(s); for(int t=0;t<VDIM-1;t++){ X d; for(int k=0;k<VDIM;k++) d[k]=J[k][t]; dirs.push_back(d); } } else dirs.push_back(is.integrationOuterNormal(s));
    for(auto& d: dirs){ size_t shared=0;
      for(size_t i=0;i<v0.size();i++){ double t=0; for(size_t j=0;j<v1.size();j++) if(l1.index(j)[0]==l0.index(i)[0]){ t+=v1[j].dot(d); shared++; } 
#ifdef VMIRRORED
        if(key0(i).codim()==1 && key0(i).index()==1) CHECK_EQ(v0[i].dot(d),t,"odd facet moments of mirrored elements: normal component agrees from both sides");
#else
        if(same || !(key0(i).codim()==1 && key0(i).index()==1)) CHECK_EQ(v0[i].dot(d),t,"normal or tangential component agrees from both sides");
#endif
      }
      for(size_t j=0;j<v1.size();j++){ bool sh=false; for(size_t i=0;i<v0.size();i++) sh|= l1.index(j)[0]==l0.index(i)[0]; if(!sh) CHECK_EQ(v1[j].dot(d),0,"functions of the other side have no component on the facet"); }
      CHECK(shared>0,"degrees of freedom are shared"); } }
  REACH("end");
}
