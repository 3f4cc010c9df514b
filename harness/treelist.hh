// The basis trees explored.  VOUTER, VINNER: index merging strategies of the outer and inner nodes (power nodes);
// composite nodes only exist with lexicographic strategies.
#pragma once
#include "trees.hh"
namespace Trees {
using namespace Dune::Functions::BasisFactory;
// calls f(factory) for the tree with number t; n is the run-time degree of dynamic power nodes
template<class SP,class SC,class SI,class F> void withTree(int t,size_t n,F&& f){
  SP sp; SC sc; SI si;   // power strategy, composite strategy, inner power strategy
  switch(t){
    case 0: f(power<2>(leaf<0>(),sp)); break;
    case 1: f(power(leaf<0>(),n,sp)); break;
    case 2: f(composite(leaf<0>(),leaf<1>(),sc)); break;
    case 3: f(power<2>(composite(leaf<0>(),leaf<1>(),sc),sp)); break;
    case 4: f(composite(power<2>(leaf<0>(),sp),leaf<1>(),sc)); break;
    case 5: f(power<2>(power<3>(leaf<0>(),si),sp)); break;
    case 6: f(power(power<2>(leaf<0>(),si),n,sp)); break;
    case 7: f(power<2>(power(leaf<0>(),n,si),sp)); break;
    case 8: f(composite(power<2>(leaf<0>(),sp),power(leaf<1>(),n,si),leaf<2>(),sc)); break;
    case 9: f(power<2>(composite(power<2>(leaf<0>(),si),leaf<1>(),sc),sp)); break;
    case 10: f(composite(composite(leaf<0>(),leaf<1>(),sc),power<2>(leaf<0>(),sp),sc)); break;
    case 11: f(power<1>(composite(leaf<0>(),sc),sp)); break;
    case 12: f(power(composite(leaf<0>(),leaf<1>(),sc),n,sp)); break;
    case 13: f(power<2>(power(composite(leaf<0>(),leaf<0>(),sc),n,sp),sp)); break;
    case 14: f(composite(power<2>(leaf<0>(),sp),composite(leaf<1>(),leaf<0>(),blockedLexicographic()),composite(leaf<0>(),leaf<2>(),leaf<1>(),blockedLexicographic()),sc)); break;
    case 15: f(composite(leaf<0>(),power(leaf<1>(),n,si),power<3>(composite(leaf<0>(),leaf<1>(),sc),si),leaf<0>(),sc)); break;
  }
}
constexpr int nTrees=16;
inline int leavesOf(int t){ return (t==8||t==14)?3 : (t==2||t==3||t==4||t==9||t==10||t==12||t==15)?2:1; }
inline bool dynamicDegree(int t){ return t==1||t==6||t==7||t==8||t==12||t==13||t==15; }
}
