// Harness interface.  In the symbolic build these functions are interpreted by /verif/engine/symex;
// in the native build (replay of counterexamples) they are implemented by /verif/rt/native.cc.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
  uint64_t __sym_int(const char* name, uint64_t lo, uint64_t hi);   // arbitrary integer in [lo,hi]
  double   __sym_real(const char* name, double lo, double hi);      // arbitrary real in [lo,hi]
  void     __sym_assume(bool c);
  void     __sym_check(bool c, const char* msg);                    // must hold on every path
  void     __sym_check_eq(double a, double b, const char* msg);     // |a-b| <= 1e-6 on every path
  void     __sym_reach(const char* name);                           // vacuity witness
  uint64_t __sym_pick(uint64_t v);                                  // case split over all feasible values
  uint64_t __sym_live_heap();
  void     __sym_print(const char* s, uint64_t v);
  void     __sym_printd(const char* s, double v);
  void harness();
}
#define SYM_STR2(x) #x
#define SYM_STR(x) SYM_STR2(x)
#define CHECK(c,m) __sym_check((c), m " [" __FILE_NAME__ ":" SYM_STR(__LINE__) "]")
#define CHECK_EQ(a,b,m) __sym_check_eq((a),(b), m " [" __FILE_NAME__ ":" SYM_STR(__LINE__) "]")
#define ASSUME(c) __sym_assume((c))
#define REACH(n) __sym_reach(n)
#ifndef __FILE_NAME__
#define __FILE_NAME__ __FILE__
#endif
inline uint64_t symInt(const char* n, uint64_t lo, uint64_t hi){ return __sym_int(n,lo,hi); }
inline double symReal(const char* n, double lo, double hi){ return __sym_real(n,lo,hi); }
inline uint64_t symPick(const char* n, uint64_t lo, uint64_t hi){ return __sym_pick(__sym_int(n,lo,hi)); }
inline bool symBool(const char* n){ return __sym_int(n,0,1)!=0; }
#ifndef VERIF_THOROUGH
#define VERIF_THOROUGH 0
#endif
