// All leaf bases, selected by -DVB=<name>; VBASIS is the factory expression.
#pragma once
#include <config.h>
#include "sym.h"
#include "meshes.hh"
#include "basis_checks.hh"
#ifndef VSINGLE
#define VSINGLE 0
#endif
#ifndef VDIMW
#define VDIMW VDIM
#endif
#define VB_lagrange 1
#define VB_lagrangeDG 2
#define VB_refined 3
#define VB_hierarchical 4
#define VB_hbubble 5
#define VB_rannacher 6
#define VB_rt 7
#define VB_bdm 8
#define VB_nedelec 9
#define VB_morley 10
#define VB_hermite 11
#define VB_argyris 12
#define VB_reducedhermite 13
#define VCAT2(a,b) a##b
#define VCAT(a,b) VCAT2(a,b)
#define VBID VCAT(VB_,VB)
#if VBID==1
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#ifdef VKDYN
#define VBASIS lagrange(VKDYN)
#else
#define VBASIS lagrange<VK>()
#endif
#elif VBID==2
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
#ifdef VKDYN
#define VBASIS lagrangeDG(VKDYN)
#else
#define VBASIS lagrangeDG<VK>()
#endif
#elif VBID==3
#include <dune/functions/functionspacebases/refinedlagrangebasis.hh>
#define VBASIS refinedLagrange<VK>()
#elif VBID==4
#include <dune/functions/functionspacebases/hierarchicallagrangebasis.hh>
#define VBASIS hierarchicalLagrange<VK>()
#elif VBID==5
#include <dune/functions/functionspacebases/hierarchicallagrangewithelementbubblebasis.hh>
#define VBASIS hierarchicalLagrangeWithElementBubble<VK>()
#elif VBID==6
#include <dune/functions/functionspacebases/rannacherturekbasis.hh>
#define VBASIS rannacherTurek()
#elif VBID==7
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#define VBASIS raviartThomas<VK>()
#elif VBID==8
#include <dune/functions/functionspacebases/brezzidouglasmarinibasis.hh>
#define VBASIS brezziDouglasMarini<VK>()
#elif VBID==9
#include <dune/functions/functionspacebases/nedelecbasis.hh>
#define VBASIS nedelec<1,1,double>()
#elif VBID==10
#include <dune/functions/functionspacebases/morleybasis.hh>
#define VBASIS morley()
#elif VBID==11
#include <dune/functions/functionspacebases/cubichermitebasis.hh>
#define VBASIS cubicHermite()
#elif VBID==12
#include <dune/functions/functionspacebases/argyrisbasis.hh>
#define VBASIS argyris()
#elif VBID==13
#include <dune/functions/functionspacebases/cubichermitebasis.hh>
#define VBASIS reducedCubicHermite()
#endif
