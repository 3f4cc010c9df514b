// TITLE: subdomains contain exactly the inserted entities with consistent consecutive indices; interfaces are exact
// BOUNDS: meshes of 3 or 4 elements (lines, quadrilaterals+triangles, tetrahedron+hexahedron+prism+pyramid); every insertion history of up to 4 insertions (any order, with repetitions, queries in between); host numberings exchanging any two entities of a type; every pair of (overlapping) subsets for interfaces; grids whose iterators return references or temporaries
// ASSUME: grid replaced by the mock grid of /verif/harness/mockgrid.hh
// CASE: hist1 -DVPART=1 -DVDIM=1
// CASE: hist2 -DVPART=1 -DVDIM=2
// CASE: hist3 -DVPART=1 -DVDIM=3
// CASE: hist2v -DVPART=1 -DVDIM=2 -DVBYVALUE
// CASE: num2 -DVPART=2 -DVDIM=2
// CASE: num3 -DVPART=2 -DVDIM=3
// CASE: interface1 -DVPART=3 -DVDIM=1
// CASE: interface2 -DVPART=3 -DVDIM=2
// CASE: interface2v -DVPART=3 -DVDIM=2 -DVBYVALUE
// CASE: interface3 -DVPART=3 -DVDIM=3
#include "sym.h"
#include "mockgrid.hh"
#include "meshes.hh"
#include "strip.hh"
#include <dune/functions/common/subdomain.hh>
using namespace Dune; using namespace Dune::Functions::Experimental; using std::size_t;
using Grd=Mock::Grid<VDIM,VDIM,0>; using GV=Grd::LeafGridView;
// every observation of the subdomain in a given state
template<class SD> void verify(const Grd& g,const SD& sd,const std::vector<char>& in){
  auto gv=g.leafGridView(); auto sgv=sd.gridView(); const auto& is=sd.indexSet();
  CHECK(&sgv.indexSet()==&is && &sgv.grid()==&g,"the grid view belongs to the subdomain"); CHECK(sd.hostGridView()==gv && sgv.hostGridView()==gv,"host grid view");
  auto contained=[&](int u,int c){ for(size_t e=0;e<in.size();e++) if(in[e]) for(size_t i=0;i<g.uid_[e][c].size();i++) if(g.uid_[e][c][i]==u) return true; return false; };
  for(auto e: elements(gv)) CHECK(sd.contains(e)==bool(in[e.e_]) && sgv.contains(e)==bool(in[e.e_]) && is.contains(e)==bool(in[e.e_]),"contains() is true exactly for inserted elements");
  Hybrid::forEach(std::make_index_sequence<VDIM+1>{},[&](auto cc){ constexpr int c=cc;
    struct Seen { int u; size_t index; GeometryType t; }; std::vector<Seen> seen;
    for(auto e: elements(gv)){ auto re=ReferenceElements<double,VDIM>::general(e.type());
      for(int i=0;i<re.size(c);i++){ int u=g.uid_[e.e_][c][i]; auto s=e.template subEntity<c>(i); bool there=contained(u,c);
        if constexpr(c>0) CHECK(is.contains(s)==there && sgv.contains(s)==there,"a sub-entity is contained exactly if it belongs to an inserted element");
        if(!there){ bool t1=false,t2=false; try { is.subIndex(e,i,c); } catch(const Exception&){ t1=true; } try { is.index(s); } catch(const Exception&){ t2=true; } CHECK(t1&&t2,"accessing an entity outside of the subdomain throws"); continue; }
        size_t k=is.subIndex(e,i,c); CHECK(is.index(s)==k && is.template index<c>(s)==k && is.template subIndex<0>(e,i,c)==k,"index() and subIndex() agree");
        auto t=re.type(i,c); CHECK(k<is.size(t),"index is smaller than the number of entities of its type");
        bool old=false; for(auto& x: seen){ if(x.u==u){ old=true; CHECK(x.index==k,"the same entity has the same index from every element"); } else if(x.t==t) CHECK(x.index!=k,"different entities of a type have different indices"); }
        if(!old) seen.push_back({u,k,t}); } }
    CHECK(is.size(c)==seen.size() && size_t(sgv.size(c))==seen.size(),"size(codim) counts the contained entities");
    auto types=is.types(c); size_t total=0;
    for(size_t a=0;a<types.size();a++){ for(size_t b=0;b<a;b++) CHECK(!(types[a]==types[b]),"types are listed once"); CHECK(int(types[a].dim())==VDIM-c,"types have the right dimension"); }
    for(auto t: LocalHybridTypes(c)){ size_t n=0; for(auto& x: seen) n+= x.t==t; CHECK(is.size(t)==n && size_t(sgv.size(t))==n,"size(type) counts the contained entities"); total+=n; bool l=false; for(auto y: types) l|= y==t; CHECK(l==(n>0),"exactly the types present are listed"); }
    CHECK(total==seen.size(),"all types are known"); });
  // iteration
  std::vector<int> it; for(const auto& e: elements(sgv)) it.push_back(e.e_); size_t k=0; for(auto e: elements(gv)) if(in[e.e_]){ CHECK(k<it.size() && it[k]==e.e_,"iteration visits exactly the inserted elements"); k++; } CHECK(k==it.size(),"iteration visits nothing else");
  k=0; for(const auto& e: elements(sgv,Partitions::interior)){ CHECK(k<it.size() && it[k]==e.e_,"iteration over a partition"); k++; } CHECK(k==it.size(),"iteration over a partition");
  for(const auto& e: elements(sgv)){ int f=0; for(const auto& x: intersections(sgv,e)){ CHECK(x.inside()==e && x.indexInInside()==f,"intersections of an element"); f++; } CHECK(f==int(g.uid_[e.e_][1].size()),"all intersections of an element"); }
}
extern "C" void harness(){
  Grd g; Mock::strip(g,0); g.finalize(); size_t n=g.el.size(); auto gv=g.leafGridView();
#if VPART==1
  SubDomain sd(gv); std::vector<char> in(n,0); auto early=sd.gridView(); if(symBool("query")) verify(g,sd,in);
  for(int step=0;step<(VERIF_THOROUGH?5:4);step++){ int e=symPick("insert",0,n); if(e==int(n)) break; sd.insertElement(g.entity(e)); in[e]=1; if(step==0){ auto copy=sd; copy.insertElement(g.entity((e+1)%n)); auto in2=in; in2[(e+1)%n]=1; verify(g,copy,in2); } verify(g,sd,in); }
  verify(g,sd,in); int m=0; for(char c: in) m+=c; CHECK(early.size(0)==m,"grid views obtained earlier see later insertions");
#elif VPART==2
  { // host numbering: an arbitrary transposition of the indices of an arbitrary type
    std::vector<GeometryType> ts; for(int c=0;c<=VDIM;c++) for(auto t: g.views[0].is.types_[c]) ts.push_back(t); auto t=ts[symPick("type",0,ts.size()-1)]; size_t m=gv.indexSet().size(t); if(m>1){ std::vector<unsigned> p(m); for(size_t i=0;i<m;i++) p[i]=i; size_t i=symPick("i",0,m-1), j=symPick("j",0,m-1); if(j<i) return; std::swap(p[i],p[j]); g.views[0].is.renumber(t,p); } }
  SubDomain sd(gv); std::vector<char> in(n,0); for(int step=0;step<2;step++){ size_t e=step?symPick("insert",0,n-1):n-1; sd.insertElement(g.entity(e)); in[e]=1; }
  verify(g,sd,in);
#else
  SubDomain A(gv),B(gv); std::vector<char> a(n),b(n); for(size_t e=0;e<n;e++){ if(symPick("inA",0,1)){ a[e]=1; A.insertElement(g.entity(e)); } if(symPick("inB",0,1)){ b[e]=1; B.insertElement(g.entity(e)); } }
  SubDomainInterface I(A,B); SubDomainSkeleton S(A); using Is=GV::Intersection; std::vector<Is> want;
  for(auto e: elements(gv)) for(auto is: intersections(gv,e)){ bool nb=is.neighbor(); int o=nb?is.outside().e_:0; bool o1=nb && a[e.e_] && b[o], o2=nb && a[o] && b[e.e_];
    CHECK(I.contains(is)==(o1||o2),"an interface contains the intersections between both subdomains"); if(o1||o2) CHECK(I.isOriented(is)==o1,"orientation of an interface"); CHECK(S.contains(is)==(nb && a[e.e_] && a[o]),"the skeleton contains the interior intersections");
    if(o1) want.push_back(is); }
  size_t k=0; for(const auto& is: I){ CHECK(k<want.size() && is==want[k],"the interface visits exactly its intersections, oriented from A to B"); k++; if(k>want.size()) break; } CHECK(k==want.size(),"the interface visits all its intersections");
  // independent iterators, copies and comparison
  auto i=I.begin(); auto j=I.begin(); CHECK(i==j,"begin() equals begin()"); if(!(i==I.end())){ auto c=i; ++i; CHECK(*c==want[0] && *j==want[0],"advancing an iterator leaves copies alone"); CHECK(!(i==j) ,"different positions differ"); if(want.size()>1) CHECK(!(i==I.end()) && *i==want[1],"second intersection"); else CHECK(i==I.end(),"end reached"); ++c; CHECK(i==c,"same position"); } else CHECK(want.empty(),"empty interface");
#endif
  REACH("end");
}
