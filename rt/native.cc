// Native implementation of the harness interface: replays one counterexample.
// argv[1]: file with lines "name value"; values are consumed per name, in order.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <map>
#include <deque>
#include <string>
#include <fstream>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>
static std::map<std::string,std::deque<std::string>> vals;
static std::string next(const char*n,const std::string&def){ auto&q=vals[n]; if(q.empty()){ printf("REPLAY: inputs exhausted\n"); fflush(stdout); _exit(78);} auto s=q.front(); q.pop_front(); return s; }
static int failed=0;
extern "C" {
  uint64_t __sym_int(const char*n,uint64_t lo,uint64_t hi){ uint64_t v=strtoull(next(n,std::to_string(lo)).c_str(),nullptr,10); return v; }
  double __sym_real(const char*n,double lo,double hi){ std::string s=next(n,""); double v=s.empty()?lo:strtod(s.c_str(),nullptr); printf("  input %s = %.17g\n",n,v); return v; }
  void __sym_assume(bool c){ if(!c){ printf("REPLAY: assumption not satisfied\n"); fflush(stdout); _exit(77); } }
  void __sym_check(bool c,const char*m){ if(!c){ printf("REPLAY-FAIL: %s\n",m); fflush(stdout); failed=1; _exit(42);} }
  void __sym_check_eq(double a,double b,const char*m){ double tol=5e-7; if(!(std::fabs(a-b)<=tol)&&!(a==b)){ printf("REPLAY-FAIL: %s (%.17g vs %.17g)\n",m,a,b); fflush(stdout); _exit(42);} }
  void __sym_reach(const char*){}
  uint64_t __sym_pick(uint64_t v){ return v; }
  uint64_t __sym_live_heap(){ return 0; }
  void __sym_print(const char*s,uint64_t v){ printf("%s %llu\n",s,(unsigned long long)v); }
  void __sym_printd(const char*s,double v){ printf("%s %.17g\n",s,v); }
}
int main(int argc,char**argv){
  if(argc>1){ std::ifstream f(argv[1]); std::string n,v; while(f>>n>>v) vals[n].push_back(v); }
  std::set_terminate([]{ printf("REPLAY-FAIL: terminate / uncaught exception"); if(auto*t=abi::__cxa_current_exception_type()){ int st; char*d=abi::__cxa_demangle(t->name(),0,0,&st); printf(" of type %s",d?d:t->name()); } printf("\n"); fflush(stdout); _exit(43); });
  harness();
  printf("REPLAY: completed without failure\n");
  return 0;
}
// lapack is not installed; libdunecommon's eigenvalue routines refer to it but are not used by any harness
extern "C" { __attribute__((weak)) void dsyev_(){ __builtin_trap(); } __attribute__((weak)) void ssyev_(){ __builtin_trap(); } __attribute__((weak)) void dgeev_(){ __builtin_trap(); } __attribute__((weak)) void sgeev_(){ __builtin_trap(); } }
