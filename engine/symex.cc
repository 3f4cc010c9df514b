// Symbolic executor for LLVM IR (LLVM 18) on top of z3.  See /verif/DESIGN.md.
#include "real.hh"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/SmallString.h>
#include <z3++.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <atomic>
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <sys/prctl.h>
#include <csignal>
#include <set>
#include <iostream>
#include <fstream>
#include <sstream>
#include <cassert>
using namespace llvm;
typedef uint64_t u64; typedef int64_t i64;

static double nowS(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }

// ---------------------------------------------------------------- shared statistics
static const int MAXFN=200000, MAXREACH=512, MAXMSG=4096;
struct Shared {
  std::atomic<i64> tokens, procs;
  std::atomic<u64> paths, dead, instrs, queries, qsat, qunsat, qunknown, solver_ns, forks;
  std::atomic<u64> checks, checks_trivial, checks_solver, violations, errors, memchecks, maxdepth;
  std::atomic<int> stop, reached[MAXREACH];
  std::atomic<u64> chkcount[MAXMSG];
  double deadline;
  unsigned char sub[MAXFN];
  char errmsg[2000];
};
static Shared* S;
static std::string outdir=".";
static double queryCap=60; // seconds worth of rlimit
static u64 rlimit=40000000;
static int verbose=0;

// ---------------------------------------------------------------- values
struct Node { int rc=0; virtual ~Node(){} };
struct Val {
  enum K:uint8_t {Undef,Int,Sym,Real,Agg} k=Undef; uint16_t w=0; u64 c=0; Node* p=nullptr;
  Val(){}
  Val(const Val&o):k(o.k),w(o.w),c(o.c),p(o.p){ if(p) p->rc++; }
  Val(Val&&o)noexcept:k(o.k),w(o.w),c(o.c),p(o.p){ o.p=nullptr; o.k=Undef; }
  Val& operator=(const Val&o){ if(o.p) o.p->rc++; drop(); k=o.k;w=o.w;c=o.c;p=o.p; return *this; }
  Val& operator=(Val&&o)noexcept{ if(this!=&o){ drop(); k=o.k;w=o.w;c=o.c;p=o.p;o.p=nullptr;o.k=Undef;} return *this; }
  ~Val(){ drop(); }
  void drop(){ if(p&&--p->rc==0) delete p; p=nullptr; }
};
static z3::context* Z;
struct SymNode:Node{ z3::expr e; SymNode(const z3::expr&x):e(x){} };
struct RealNode:Node{ RealNum r; };
struct AggNode:Node{ std::vector<Val> v; };
static inline u64 maskw(u64 c,unsigned w){ return w>=64?c:(c&((1ull<<w)-1)); }
static inline i64 sxt(u64 c,unsigned w){ if(w>=64) return (i64)c; u64 m=1ull<<(w-1); c=maskw(c,w); return (i64)((c^m)-m); }
static inline Val mkInt(u64 c,unsigned w){ Val v; v.k=Val::Int; v.w=w; v.c=maskw(c,w); return v; }
static inline Val mkUndef(unsigned w=0){ Val v; v.w=w; return v; }
static inline z3::expr symE(const Val&v){ return static_cast<SymNode*>(v.p)->e; }
static inline RealNum& realR(const Val&v){ return static_cast<RealNode*>(v.p)->r; }
static inline std::vector<Val>& aggV(const Val&v){ return static_cast<AggNode*>(v.p)->v; }
static Val mkNode(Val::K k,unsigned w,Node*n){ Val v; v.k=k; v.w=w; v.p=n; n->rc++; return v; }
static Val mkSym(z3::expr e,unsigned w){ // e: Bool if w==1 else BV(w)
  if(w==1){ if(e.is_true()) return mkInt(1,1); if(e.is_false()) return mkInt(0,1); }
  else { uint64_t n; if(w<=64&&e.is_numeral()){ if(e.is_numeral_u64(n)) return mkInt(n,w);} }
  return mkNode(Val::Sym,w,new SymNode(e));
}
static Val mkReal(const RealNum&r){ auto n=new RealNode; n->r=r; return mkNode(Val::Real,64,n); }
static Val mkRealC(const mpq_class&q){ auto n=new RealNode; n->r.c=q; return mkNode(Val::Real,64,n); }
static Val mkRealD(double d){ RealNum r; if(!std::isfinite(d)){ r.special=true; r.sp=d; } else r.c=snapDouble(d); return mkReal(r); }
static Val mkAgg(std::vector<Val> v){ auto n=new AggNode; n->v=std::move(v); return mkNode(Val::Agg,0,n); }
static z3::expr bvOf(const Val&v){ // bit-vector (or Bool when w==1)
  if(v.k==Val::Sym) return symE(v);
  if(v.w==1) return Z->bool_val(v.c&1);
  return Z->bv_val((uint64_t)v.c,v.w);
}

// ---------------------------------------------------------------- errors
struct PathEnd{ };           // terminate this process's path
struct CppThrow{};
[[noreturn]] static void endPath();
static std::string curLoc();
[[noreturn]] static void engineError(const std::string&m){
  u64 n=S->errors++;
  if(n==0){ strncpy(S->errmsg,(m+" @ "+curLoc()).c_str(),sizeof(S->errmsg)-1); }
  std::ofstream f(outdir+"/error_"+std::to_string(n)+".txt"); f<<m<<"\n"<<curLoc()<<"\n";
  if(verbose) std::cerr<<"ENGINE-ERROR: "<<m<<" @ "<<curLoc()<<"\n";
  S->stop=1;
  endPath();
}

// ---------------------------------------------------------------- reals
// factors seen in denominators, to find common factors without polynomial gcds
static std::vector<Poly> atoms;
static void registerAtom(Poly p){ if(p.degree()==0||atoms.size()>=24||p.t.size()>60) return; for(auto&[m,c]:p.t) for(auto x:m) if(rvars[x>>8].sq) return;
  Poly q; for(auto&a:atoms) while(p.degree()>0&&p.divExact(a,q)) p=q; if(p.degree()==0) return; atoms.push_back(p.scaled(1/p.lead())); }
static Poly commonFactor(const Poly&a,const Poly&b){ Poly g(mpq_class(1)),x=a,y=b,q1,q2; for(auto&f:atoms) while(x.degree()>0&&y.degree()>0&&x.divExact(f,q1)&&y.divExact(f,q2)){ x=q1; y=q2; g=g*f; } return g; }
static void normalize(RealNum&r){
  if(r.special||r.cst) return;
  if(r.num.isZero()){ r.cst=true; r.c=0; r.num=Poly(); r.den=Poly(); r.denOne=true; return; }
  if(!r.denOne && r.den.isConst()){ r.num=r.num.scaled(1/r.den.constant()); r.den=Poly(); r.denOne=true; }
  if(r.denOne){ if(r.num.isConst()){ r.cst=true; r.c=r.num.constant(); r.num=Poly(); } return; }
  Poly q; if(r.num.divExact(r.den,q)){ r.num=q; r.den=Poly(); r.denOne=true; if(r.num.isConst()){ r.cst=true; r.c=r.num.constant(); r.num=Poly(); } return; }
  if(r.num.degree()>0&&r.den.divExact(r.num,q)&&r.num.degree()>0){ r.den=q; r.num=Poly(mpq_class(1)); if(r.den.isConst()){ normalize(r); return; } }
  if(r.den.degree()>1){ Poly x,y; for(auto&f:atoms) while(r.den.degree()>0&&r.den.divExact(f,x)&&r.num.divExact(f,y)){ r.den=x; r.num=y; } if(r.den.isConst()){ normalize(r); return; } }
  mpq_class l=r.den.lead(); if(l!=1){ mpq_class s=1/l; r.den=r.den.scaled(s); r.num=r.num.scaled(s); }
}
static Poly numP(const RealNum&a){ return a.cst?Poly(a.c):a.num; }
static RealNum rAdd(const RealNum&a,const RealNum&b,bool sub){
  RealNum r;
  if(a.cst&&b.cst){ r.c=sub?mpq_class(a.c-b.c):mpq_class(a.c+b.c); return r; }
  r.cst=false; Poly bn=numP(b); if(sub) bn=-bn; Poly an=numP(a);
  bool ad=a.cst||a.denOne, bd=b.cst||b.denOne;
  if(ad&&bd){ r.num=an+bn; }
  else if(ad){ r.num=an*b.den+bn; r.den=b.den; r.denOne=false; }
  else if(bd){ r.num=an+bn*a.den; r.den=a.den; r.denOne=false; }
  else if(a.den==b.den){ r.num=an+bn; r.den=a.den; r.denOne=false; }
  else { Poly q; r.denOne=false;
    if(b.den.divExact(a.den,q)){ r.num=an*q+bn; r.den=b.den; }
    else if(a.den.divExact(b.den,q)){ r.num=an+bn*q; r.den=a.den; }
    else { Poly g=commonFactor(a.den,b.den),x,y; if(g.degree()>0&&a.den.divExact(g,x)&&b.den.divExact(g,y)){ r.num=an*y+bn*x; r.den=a.den*y; } else { r.num=an*b.den+bn*a.den; r.den=a.den*b.den; } } }
  normalize(r); return r;
}
static RealNum rMul(const RealNum&a,const RealNum&b){
  RealNum r;
  if(a.cst&&b.cst){ r.c=a.c*b.c; return r; }
  if(a.cst||b.cst){ const RealNum&x=a.cst?b:a; const mpq_class&c=a.cst?a.c:b.c; if(c==0) return r; r=x; r.num=x.num.scaled(c); return r; }
  r.cst=false; Poly an=a.num,bn=b.num,ad=a.den,bd=b.den; bool ao=a.denOne,bo=b.denOne; Poly q;
  if(!bo&&an.divExact(bd,q)){ an=q; bo=true; } 
  if(!ao&&bn.divExact(ad,q)){ bn=q; ao=true; }
  r.num=an*bn;
  if(ao&&bo) r.denOne=true; else { r.denOne=false; r.den=ao?bd:bo?ad:ad*bd; }
  normalize(r); return r;
}
static RealNum rInv(const RealNum&a){
  RealNum r; if(a.cst){ r.c=1/a.c; return r; }
  r.cst=false; r.num=a.denOne?Poly(mpq_class(1)):a.den; r.den=a.num; r.denOne=false;
  for(int k=0;k<6&&r.den.t.size()<40;k++){ int v=-1; for(auto&[m,c]:r.den.t) for(auto x:m) if(rvars[x>>8].sq) v=std::max(v,int(x>>8)); if(v<0) break; // rationalise
    Poly p,q; for(auto&[m,c]:r.den.t){ Mono w; bool has=false; for(auto x:m) if(int(x>>8)==v) has=true; else w.push_back(x); (has?q:p).addTerm(w,c); }
    Poly conj= p.isZero()?Poly::var(v):p-q*Poly::var(v); Poly nd= p.isZero()?q*(*rvars[v].sq):r.den*conj; if(nd.isZero()) break; r.num=r.num*conj; r.den=nd; }
  registerAtom(r.den); normalize(r); return r;
}
static RealNum rNeg(const RealNum&a){ RealNum r=a; if(a.special) r.sp=-a.sp; else if(a.cst) r.c=-a.c; else r.num=-a.num; return r; }

static std::vector<z3::expr>* rvarE;
static z3::expr mpqE(const mpq_class&q){ return Z->real_val(q.get_str().c_str()); }
static z3::expr polyE(const Poly&p){
  if(p.isZero()) return Z->real_val(0);
  z3::expr_vector sum(*Z);
  for(auto&[m,c]:p.t){
    z3::expr_vector f(*Z); if(c!=1||m.empty()) f.push_back(mpqE(c));
    for(auto x:m) for(unsigned k=0;k<(x&255);k++) f.push_back((*rvarE)[x>>8]);
    if(f.size()==1) sum.push_back(f[0]); else { std::vector<Z3_ast> as; for(unsigned i=0;i<f.size();i++) as.push_back(f[i]); sum.push_back(z3::expr(*Z,Z3_mk_mul(*Z,as.size(),as.data()))); }
  }
  if(sum.size()==1) return sum[0];
  std::vector<Z3_ast> as; for(unsigned i=0;i<sum.size();i++) as.push_back(sum[i]);
  return z3::expr(*Z,Z3_mk_add(*Z,as.size(),as.data()));
}
enum Cmp{EQ,NE,LT,LE,GT,GE};
static z3::expr cmpE(z3::expr a,Cmp o){ z3::expr z=Z->real_val(0); switch(o){case EQ:return a==z;case NE:return a!=z;case LT:return a<z;case LE:return a<=z;case GT:return a>z;default:return a>=z;} }
// sign test of (p/q) against 0
static z3::expr relE(const RealNum&d,Cmp o){
  if(d.denOne) { 
    // scale so that leading coefficient is one (canonical atoms)
    mpq_class l=d.num.lead(); Cmp oo=o; if(l<0){ oo= o==LT?GT:o==GT?LT:o==LE?GE:o==GE?LE:o; }
    return cmpE(polyE(d.num.scaled(1/l)),oo); }
  if(o==EQ||o==NE) return cmpE(polyE(d.num),o);
  return cmpE(polyE(d.num)*polyE(d.den),o);
}
static z3::expr realE(const RealNum&d){ if(d.cst) return mpqE(d.c); if(d.denOne) return polyE(d.num); return polyE(d.num)/polyE(d.den); }

// ---------------------------------------------------------------- path condition & solver
struct PC { z3::expr e; std::vector<unsigned> vars; };
static std::vector<PC> pcs;
static std::vector<unsigned> collectVars(const z3::expr&e){
  std::set<unsigned> vars; std::unordered_set<unsigned> seen; std::vector<z3::expr> st{e};
  while(!st.empty()){ z3::expr x=st.back(); st.pop_back(); unsigned id=Z3_get_ast_id(*Z,x); if(!seen.insert(id).second) continue;
    if(x.is_app()){ if(x.num_args()==0){ if(x.decl().decl_kind()==Z3_OP_UNINTERPRETED) vars.insert(id); }
      else for(unsigned i=0;i<x.num_args();i++) st.push_back(x.arg(i)); } }
  return {vars.begin(),vars.end()};
}
struct Input { std::string name; int kind; z3::expr e; u64 conc; }; // kind 0 int,1 real, 2 concrete
static std::vector<Input> inputs;
static std::map<unsigned,z3::expr> *asg; // model: var ast id -> value; satisfies all pcs
static std::map<unsigned,z3::expr> *varById;

static bool hasReal(const z3::expr&e){
  std::unordered_set<unsigned> seen; std::vector<z3::expr> st{e};
  while(!st.empty()){ z3::expr x=st.back(); st.pop_back(); if(!seen.insert(Z3_get_ast_id(*Z,x)).second) continue; if(x.is_real()) return true; if(x.is_app()) for(unsigned i=0;i<x.num_args();i++) st.push_back(x.arg(i)); }
  return false;
}
static bool hasBV(const z3::expr&e){
  std::unordered_set<unsigned> seen; std::vector<z3::expr> st{e};
  while(!st.empty()){ z3::expr x=st.back(); st.pop_back(); if(!seen.insert(Z3_get_ast_id(*Z,x)).second) continue; if(x.is_bv()) return true; if(x.is_app()) for(unsigned i=0;i<x.num_args();i++) st.push_back(x.arg(i)); }
  return false;
}
static void checkStop(){
  if(S->stop) endPath();
  if(nowS()>S->deadline){ engineError("time budget exhausted"); }
}
// 1 sat, 0 unsat, -1 unknown.  On sat, fills newAsg (slice variables only).
static int solve(const z3::expr&cond,std::map<unsigned,z3::expr>*newAsg){
  checkStop();
  auto vs=collectVars(cond); std::set<unsigned> rel(vs.begin(),vs.end()); std::vector<char> in(pcs.size(),0); bool ch=true;
  while(ch){ ch=false; for(size_t i=0;i<pcs.size();i++) if(!in[i]){ bool hit=false; for(unsigned v:pcs[i].vars) if(rel.count(v)){hit=true;break;} if(hit){ in[i]=1; ch=true; for(unsigned v:pcs[i].vars) rel.insert(v);} } }
  bool anyReal=hasReal(cond),anyBV=hasBV(cond);
  for(size_t i=0;i<pcs.size();i++) if(in[i]){ if(!anyReal&&hasReal(pcs[i].e)) anyReal=true; if(!anyBV&&hasBV(pcs[i].e)) anyBV=true; }
  double t0=nowS();
  int res=-1;
  auto run=[&](z3::solver s,u64 lim){
    z3::params p(*Z); p.set("rlimit",(unsigned)lim); try{ s.set(p);}catch(z3::exception&){}
    for(size_t i=0;i<pcs.size();i++) if(in[i]) s.add(pcs[i].e);
    s.add(cond);
    z3::check_result r;
    try{ r=s.check(); }catch(z3::exception&e){ r=z3::unknown; }
    S->queries++;
    if(r==z3::unsat){ res=0; }
    else if(r==z3::sat){ res=1;
      if(newAsg){ z3::model m=s.get_model(); for(unsigned v:rel){ auto it=varById->find(v); if(it!=varById->end()) newAsg->insert_or_assign(v,m.eval(it->second,true)); } } }
    else res=-1;
  };
  if(anyReal&&!anyBV){
    run(z3::tactic(*Z,"qfnra-nlsat").mk_solver(),rlimit);
    if(res==-1) run(z3::solver(*Z,"QF_NRA"),rlimit);
    if(res==-1) run(z3::solver(*Z),rlimit);
  } else if(anyReal) { run(z3::solver(*Z),rlimit); }
  else {
    static z3::solver*inc=nullptr; static size_t added=0;
    if(!inc){ const char*q=getenv("INCS"); if(q&&*q) inc=new z3::solver(*Z,q); else inc=new z3::solver(*Z,z3::solver::simple()); }
    for(;added<pcs.size();added++) if(!hasReal(pcs[added].e)) inc->add(pcs[added].e);
    z3::params p(*Z); p.set("rlimit",(unsigned)(rlimit/20)); try{ inc->set(p);}catch(z3::exception&){}
    inc->push(); inc->add(cond); z3::check_result r;
    try{ r=inc->check(); }catch(z3::exception&e){ r=z3::unknown; }
    S->queries++;
    if(r==z3::unsat) res=0; else if(r==z3::sat){ res=1; if(newAsg){ z3::model m=inc->get_model(); for(unsigned v:rel){ auto it=varById->find(v); if(it!=varById->end()) newAsg->insert_or_assign(v,m.eval(it->second,true)); } } }
    inc->pop();
    if(res==-1) run(z3::solver(*Z,"QF_BV"),rlimit);
  }
  u64 ns=(nowS()-t0)*1e9; S->solver_ns+=ns;
  if(verbose>=2&&ns>2000000000ull) std::cerr<<"slow query "<<ns*1e-9<<"s res="<<res<<" real="<<anyReal<<" bv="<<anyBV<<" at "<<curLoc()<<"\n"<<(verbose>=3?cond.to_string():"")<<"\n";
  if(res==1) S->qsat++; else if(res==0) S->qunsat++; else S->qunknown++;
  return res;
}
static void addPC(const z3::expr&e){ if(e.is_true()) return; pcs.push_back({e,collectVars(e)}); }
// evaluates cond under the current assignment: 1 true 0 false -1 don't know
static int evalAsg(const z3::expr&cond){
  if(!asg) return -1;
  z3::expr_vector from(*Z),to(*Z);
  for(unsigned v:collectVars(cond)){ auto it=asg->find(v); auto jt=varById->find(v); if(it==asg->end()||jt==varById->end()) return -1; from.push_back(jt->second); to.push_back(it->second); }
  z3::expr c=cond; z3::expr r=c.substitute(from,to).simplify();
  if(r.is_true()) return 1; if(r.is_false()) return 0; return -1;
}
static z3::expr newVar(const std::string&name,z3::sort s){ z3::expr v=Z->constant(name.c_str(),s); varById->insert_or_assign(Z3_get_ast_id(*Z,v),v); return v; }

static bool concurrent=false; static int depth=0;
static std::vector<pid_t> kids;
[[noreturn]] static void endPath(){
  for(pid_t k:kids){ int st; while(waitpid(k,&st,0)<0&&errno==EINTR); if(WIFSIGNALED(st)){ S->errors++; if(!S->errmsg[0]) snprintf(S->errmsg,sizeof S->errmsg,"worker killed by signal %d",WTERMSIG(st)); } }
  if(concurrent) S->tokens++;
  S->procs--;
  fflush(stdout); fflush(stderr);
  _exit(0);
}
// processes end with their parent and shortly after the deadline
static void guardProcess(){ prctl(PR_SET_PDEATHSIG,SIGKILL); double left=S->deadline-nowS()+20; alarm(left<1?1:(unsigned)left); }
// returns true in the child
static u64 icount=0;
static bool forkState(){
  S->forks++; S->instrs+=icount; icount=0;
  bool tok=false; i64 t=S->tokens; while(t>0){ if(S->tokens.compare_exchange_weak(t,t-1)){tok=true;break;} }
  fflush(stdout); fflush(stderr);
  S->procs++;
  pid_t p=fork();
  if(p<0){ S->procs--; if(tok) S->tokens++; engineError("fork failed"); }
  if(p==0){ guardProcess(); concurrent=tok; kids.clear(); depth++; u64 d=depth; u64 m=S->maxdepth; while(d>m&&!S->maxdepth.compare_exchange_weak(m,d)); return true; }
  if(tok) kids.push_back(p);
  else { int st; while(waitpid(p,&st,0)<0&&errno==EINTR); if(WIFSIGNALED(st)){ S->errors++; if(!S->errmsg[0]) snprintf(S->errmsg,sizeof S->errmsg,"worker killed by signal %d",WTERMSIG(st)); S->stop=1; } }
  return false;
}
static void mergeAsg(std::map<unsigned,z3::expr>&n){ for(auto&[k,v]:n) asg->insert_or_assign(k,v); }
static void assumeE(const z3::expr&e){
  z3::expr c=e.simplify();
  if(c.is_true()) return;
  if(c.is_false()){ S->dead++; S->instrs+=icount; icount=0; endPath(); }
  if(evalAsg(c)!=1){ std::map<unsigned,z3::expr> n; int r=solve(c,&n); if(r==-1) engineError("solver: unknown in assume"); if(r==0){ S->dead++; S->instrs+=icount; icount=0; endPath(); } mergeAsg(n); }
  addPC(c);
}
// decide a symbolic condition, forking when both outcomes are feasible
static bool decide(const z3::expr&e0){
  z3::expr e=e0.simplify();
  if(e.is_true()) return true; if(e.is_false()) return false;
  static std::unordered_map<unsigned,std::pair<z3::expr,bool>> known; // conditions already decided on this path (path conditions only grow)
  { auto it=known.find(Z3_get_ast_id(*Z,e)); if(it!=known.end()) return it->second.second; }
  auto remember=[&](bool v){ known.insert({Z3_get_ast_id(*Z,e),{e,v}}); return v; };
  z3::expr ne=(!e).simplify();
  int ev=evalAsg(e);
  std::map<unsigned,z3::expr> nT,nF; bool T,F;
  if(ev==1) T=true; else { int r=solve(e,&nT); if(r==-1) engineError("solver: unknown at branch"); T=r; }
  if(ev==0) F=true; else { if(!T) F=true; else { int r=solve(ne,&nF); if(r==-1) engineError("solver: unknown at branch"); F=r; } }
  if(!T) return remember(false);   // implied: no need to add
  if(!F) return remember(true);
  if(forkState()){ addPC(ne); mergeAsg(nF); return remember(false); }
  checkStop();
  addPC(e); mergeAsg(nT); return remember(true);
}

// ---------------------------------------------------------------- program state
struct DInst { unsigned op; const Instruction*I; int dst; std::vector<int> ops; i64 off=0; std::vector<std::pair<int,u64>> gep; unsigned w=0; int extra=0; };
struct DBlock { std::vector<DInst> insts; std::vector<const PHINode*> phis; std::vector<int> subs; bool marked=false; };
struct DFunc { Function*F; std::vector<DBlock> blocks; DenseMap<const BasicBlock*,int> bidx; std::vector<Val> consts; int nregs; std::vector<std::map<const BasicBlock*,std::vector<std::pair<int,int>>>> phi; };
struct Obj { u64 base,size; int kind; bool freed=false; const char* name=nullptr; std::vector<uint8_t> raw,tag; std::map<u64,std::pair<Val,unsigned>> side; };
// tag: 0 undef 1 concrete 2 start of side value 3 inside side value
struct Frame { DFunc*df; int bb; size_t pc; std::vector<Val> regs; std::vector<u64> allocas; std::vector<Val> varargs; const BasicBlock*prev; };
static std::vector<Frame> stk;
static std::map<u64,Obj*> objs; static std::map<u64,Obj*> freedObjs;
static u64 nextAddr=0x100000000ull;
static std::unique_ptr<Module> M; static const DataLayout*DL;
static DenseMap<const Function*,DFunc*> dfuncs;
static DenseMap<const GlobalValue*,u64> gaddr; static std::map<u64,Function*> faddr;
static std::map<const DISubprogram*,int> subIdx; static std::vector<const DISubprogram*> subList;
static i64 liveHeap=0;

static std::string locOf(const Instruction*I){ if(!I) return "?"; if(auto&d=I->getDebugLoc()){ std::string s; DILocation*l=d.get(); int n=0; while(l&&n++<6){ s+=l->getFilename().str()+":"+std::to_string(l->getLine())+" "; l=l->getInlinedAt(); } return s; } return "?"; }
static const Instruction* curI=nullptr;
static std::string curLoc(){ std::string s=locOf(curI); int n=0; for(int i=(int)stk.size()-1;i>=0&&n<12;i--,n++){ auto&f=stk[i]; s+=" <- "+demangle(f.df->F->getName().str()).substr(0,160); if(i>0){ auto&pf=stk[i-1]; if(pf.pc>0&&pf.pc<=pf.df->blocks[pf.bb].insts.size()) s+=" ["+locOf(pf.df->blocks[pf.bb].insts[pf.pc-1].I)+"]"; } } return s; }

static std::string jsonEsc(const std::string&s){ std::string r; for(char c:s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if((unsigned char)c<32) r+=' '; else r+=c; } return r; }
static std::string modelVal(const z3::expr&v,bool real){
  if(!real){ uint64_t n; if(v.is_numeral_u64(n)) return std::to_string(n); return "0"; }
  std::string s=v.get_decimal_string(25); if(!s.empty()&&s.back()=='?') s.pop_back(); return s;
}
static std::map<std::string,int> msgCount;
static void reportViolation(const std::string&kind,const std::string&msg,std::map<unsigned,z3::expr>*over=nullptr){
  u64 n=S->violations++;
  if(n<40){
    std::ofstream f(outdir+"/viol_"+std::to_string(n)+".json");
    f<<"{\"kind\":\""<<kind<<"\",\"msg\":\""<<jsonEsc(msg)<<"\",\"loc\":\""<<jsonEsc(curLoc())<<"\",\"inputs\":[";
    bool first=true;
    for(auto&i:inputs){ std::string val; if(i.kind==2) val=std::to_string(i.conc); else { z3::expr x=i.e; z3::expr_vector from(*Z),to(*Z); for(unsigned v:collectVars(x)){ auto jt=varById->find(v); if(jt==varById->end()) continue; bool ok=false; if(over){ auto it=over->find(v); if(it!=over->end()){ from.push_back(jt->second); to.push_back(it->second); ok=true; } } if(!ok){ auto it=asg->find(v); if(it!=asg->end()){ from.push_back(jt->second); to.push_back(it->second); } } } z3::expr r=x.substitute(from,to).simplify(); val=modelVal(r,i.kind==1); }
      f<<(first?"":",")<<"[\""<<jsonEsc(i.name)<<"\",\""<<val<<"\"]"; first=false; }
    f<<"]}\n";
  }
  if(verbose) std::cerr<<"VIOL "<<kind<<": "<<msg<<" @ "<<curLoc()<<"\n";
  if(S->violations>=12) S->stop=1;
}
[[noreturn]] static void violationEnd(const std::string&kind,const std::string&msg){ reportViolation(kind,msg); S->instrs+=icount; icount=0; endPath(); }

// ---------------------------------------------------------------- memory
static Obj* newObj(u64 size,int kind,u64 align=16){ u64 gap=64; u64 a=nextAddr; if(align<16) align=16; a=(a+align-1)/align*align; nextAddr=a+size+gap; auto o=new Obj; o->base=a;o->size=size;o->kind=kind; o->raw.assign(size,0); o->tag.assign(size,0); objs[a]=o; return o; }
static Obj* lastObj=nullptr;
static Obj* findObj(u64 a){ if(lastObj&&a>=lastObj->base&&a<lastObj->base+lastObj->size) return lastObj; auto it=objs.upper_bound(a); if(it==objs.begin()) return nullptr; --it; Obj*o=it->second; if(a<o->base+o->size||(o->size==0&&a==o->base)) { lastObj=o; return o; } return nullptr; }
static Obj* access(u64 a,u64 n,const char*what){
  Obj*o=findObj(a);
  if(!o||a+n>o->base+o->size){
    std::string d;
    if(a<4096) d="null pointer dereference"; else { auto it=freedObjs.upper_bound(a); if(it!=freedObjs.begin()){ --it; Obj*f=it->second; if(a>=f->base&&a<f->base+f->size) d=f->kind==2?"use of out-of-scope stack object":"use after free"; } if(d.empty()) d="out-of-bounds access"; }
    violationEnd("memory",std::string(what)+": "+d+" ("+std::to_string(n)+" bytes)");
  }
  return o;
}
static void clearSide(Obj*o,u64 off,u64 n){
  if(o->side.empty()) return;
  auto it=o->side.lower_bound(off);
  if(it!=o->side.begin()){ auto pv=std::prev(it); if(pv->first+pv->second.second>off){
      // partially overwritten: split
      Val v=pv->second.first; u64 st=pv->first; unsigned sz=pv->second.second; o->side.erase(pv);
      for(u64 i=st;i<st+sz;i++) o->tag[i]=0;
      if(v.k==Val::Sym){ for(u64 i=st;i<st+sz;i++) if(i<off||i>=off+n){ z3::expr e=symE(v); if(v.w==1) e=z3::ite(e,Z->bv_val(1,8),Z->bv_val(0,8)); else if(v.w<sz*8) e=z3::zext(e,sz*8-v.w); z3::expr b=e.extract((i-st)*8+7,(i-st)*8).simplify(); Val bv=mkSym(b,8); if(bv.k==Val::Int){ o->raw[i]=bv.c; o->tag[i]=1; } else { o->side[i]={bv,1}; o->tag[i]=2; } } }
  } }
  it=o->side.lower_bound(off);
  while(it!=o->side.end()&&it->first<off+n){
    Val v=it->second.first; u64 st=it->first; unsigned sz=it->second.second; it=o->side.erase(it);
    for(u64 i=st;i<st+sz;i++) o->tag[i]=0;
    if(st+sz>off+n&&v.k==Val::Sym){ for(u64 i=off+n;i<st+sz;i++){ z3::expr e=symE(v); if(v.w==1) e=z3::ite(e,Z->bv_val(1,8),Z->bv_val(0,8)); else if(v.w<sz*8) e=z3::zext(e,sz*8-v.w); z3::expr b=e.extract((i-st)*8+7,(i-st)*8).simplify(); Val bv=mkSym(b,8); if(bv.k==Val::Int){ o->raw[i]=bv.c;o->tag[i]=1;} else { o->side[i]={bv,1}; o->tag[i]=2; } } it=o->side.lower_bound(off+n); }
  }
}
static void storeVal(Obj*o,u64 off,const Val&v,Type*T);
static void storeScalar(Obj*o,u64 off,const Val&v,unsigned bytes,Type*T){
  clearSide(o,off,bytes);
  if(v.k==Val::Int&&bytes<=8){ for(unsigned i=0;i<bytes;i++){ o->raw[off+i]=(v.c>>(8*i)); o->tag[off+i]=1; } return; }
  if(v.k==Val::Undef){ for(unsigned i=0;i<bytes;i++) o->tag[off+i]=0; return; }
  if(v.k==Val::Real&&bytes==8){ auto&r=realR(v); double d; if(r.special||(r.cst&&toDoubleExact(r.c,d))){ if(r.special) d=r.sp; if(!(d==0&&std::signbit(d))){ memcpy(&o->raw[off],&d,8); memset(&o->tag[off],1,8); return; } else { d=0; memcpy(&o->raw[off],&d,8); memset(&o->tag[off],1,8); return; } } }
  if(v.k==Val::Real&&bytes==4){ auto&r=realR(v); if(r.special||r.cst){ double d=r.special?r.sp:r.c.get_d(); float f=d; if(r.special||mpq_class((double)f)==r.c){ memcpy(&o->raw[off],&f,4); memset(&o->tag[off],1,4); return; } } }
  o->side[off]={v,bytes}; o->tag[off]=2; for(unsigned i=1;i<bytes;i++) o->tag[off+i]=3;
}
static z3::expr freshUndef(unsigned w);
static Val bytesToVal(Obj*o,u64 off,unsigned bytes,unsigned w){
  // generic assembly
  bool anyUndef=false,anySym=false;
  for(unsigned i=0;i<bytes;i++){ if(o->tag[off+i]==0) anyUndef=true; if(o->tag[off+i]>=2) anySym=true; }
  if(anyUndef){ bool anyDef=anySym; for(unsigned i=0;i<bytes;i++) if(o->tag[off+i]==1) anyDef=true; if(!anyDef||bytes>8) return mkUndef(w); }  // mixed words (padding) keep their defined bytes
  if(!anySym&&!anyUndef){ if(bytes<=8){ u64 c=0; for(unsigned i=0;i<bytes;i++) c|=(u64)o->raw[off+i]<<(8*i); return mkInt(c,w);} }
  std::vector<z3::expr> parts; // from low to high
  for(unsigned i=0;i<bytes;){
    if(o->tag[off+i]==0){ parts.push_back(freshUndef(8)); i++; continue; }
    if(o->tag[off+i]==1){ parts.push_back(Z->bv_val((unsigned)o->raw[off+i],8)); i++; continue; }
    auto it=o->side.upper_bound(off+i); --it; u64 st=it->first; unsigned sz=it->second.second; Val v=it->second.first;
    if(v.k==Val::Undef) return mkUndef(w);
    if(v.k==Val::Real){ auto&r=realR(v); if(!r.special&&!r.cst) return mkUndef(w); double d=r.special?r.sp:r.c.get_d(); u64 bits; if(sz==8) memcpy(&bits,&d,8); else { float f=d; unsigned b; memcpy(&b,&f,4); bits=b; } v=mkInt(bits,sz*8); }
    z3::expr e=bvOf(v); if(v.w==1) e=z3::ite(e,Z->bv_val(1,8),Z->bv_val(0,8)); unsigned ew=v.w==1?8:v.w; if(ew<sz*8) e=z3::zext(e,sz*8-ew);
    unsigned lo=off+i-st, hi=std::min<u64>(sz,off+bytes-st); parts.push_back(e.extract(hi*8-1,lo*8)); i+=hi-lo;
  }
  z3::expr e=parts.back(); for(int i=(int)parts.size()-2;i>=0;i--) e=z3::concat(e,parts[i]);
  if(w==1) { e=(e.extract(0,0)==Z->bv_val(1,1)); return mkSym(e.simplify(),1); }
  if(w<bytes*8) e=e.extract(w-1,0);
  return mkSym(e.simplify(),w);
}
static z3::expr newVar(const std::string&n,z3::sort so);
static z3::expr freshUndef(unsigned w){ static u64 n=0; return newVar("undefb!"+std::to_string(n++),Z->bv_sort(w)); }
static Val asReal(const Val&v,unsigned w){
  if(v.k==Val::Real||v.k==Val::Undef) return v;
  if(v.k==Val::Int){ if(w==64){ double d; memcpy(&d,&v.c,8); return mkRealD(d);} if(w==32){ unsigned b=v.c; float f; memcpy(&f,&b,4); return mkRealD(f);} }
  engineError("symbolic integer reinterpreted as floating point");
}
static unsigned fpBits(Type*T){ return T->isFloatTy()?32:T->isDoubleTy()?64:T->isX86_FP80Ty()?80:64; }
static Val loadVal(Obj*o,u64 off,Type*T){
  if(auto*ST=dyn_cast<StructType>(T)){ auto*SL=DL->getStructLayout(ST); std::vector<Val> v; for(unsigned i=0;i<ST->getNumElements();i++) v.push_back(loadVal(o,off+SL->getElementOffset(i),ST->getElementType(i))); return mkAgg(v); }
  if(auto*AT=dyn_cast<ArrayType>(T)){ std::vector<Val> v; u64 sz=DL->getTypeAllocSize(AT->getElementType()); for(u64 i=0;i<AT->getNumElements();i++) v.push_back(loadVal(o,off+i*sz,AT->getElementType())); return mkAgg(v); }
  if(auto*VT=dyn_cast<FixedVectorType>(T)){ std::vector<Val> v; u64 sz=DL->getTypeStoreSize(VT->getElementType()); for(u64 i=0;i<VT->getNumElements();i++) v.push_back(loadVal(o,off+i*sz,VT->getElementType())); return mkAgg(v); }
  unsigned bytes=DL->getTypeStoreSize(T);
  if(o->tag[off]==2){ auto it=o->side.find(off); if(it!=o->side.end()&&it->second.second==bytes){ Val v=it->second.first;
      if(T->isFloatingPointTy()) return asReal(v,fpBits(T));
      unsigned w=T->isPointerTy()?64:T->getIntegerBitWidth();
      if(v.k==Val::Real) return v;   // moved as integer
      if(v.w==w) return v; 
      return bytesToVal(o,off,bytes,w); } }
  unsigned w=T->isPointerTy()?64:T->isIntegerTy()?T->getIntegerBitWidth():bytes*8;
  Val v=bytesToVal(o,off,bytes,w);
  if(T->isFloatingPointTy()) return asReal(v,fpBits(T));
  return v;
}
static void storeVal(Obj*o,u64 off,const Val&v,Type*T){
  if(auto*ST=dyn_cast<StructType>(T)){ auto*SL=DL->getStructLayout(ST); for(unsigned i=0;i<ST->getNumElements();i++) storeVal(o,off+SL->getElementOffset(i),v.k==Val::Agg?aggV(v)[i]:Val(),ST->getElementType(i)); return; }
  if(auto*AT=dyn_cast<ArrayType>(T)){ u64 sz=DL->getTypeAllocSize(AT->getElementType()); for(u64 i=0;i<AT->getNumElements();i++) storeVal(o,off+i*sz,v.k==Val::Agg?aggV(v)[i]:Val(),AT->getElementType()); return; }
  if(auto*VT=dyn_cast<FixedVectorType>(T)){ u64 sz=DL->getTypeStoreSize(VT->getElementType()); for(u64 i=0;i<VT->getNumElements();i++) storeVal(o,off+i*sz,v.k==Val::Agg?aggV(v)[i]:Val(),VT->getElementType()); return; }
  storeScalar(o,off,v,DL->getTypeStoreSize(T),T);
}
static void copyMem(u64 d,u64 s,u64 n){
  if(n==0) return; Obj*so=access(s,n,"memcpy source"); Obj*dobj=access(d,n,"memcpy destination"); u64 sf=s-so->base,df=d-dobj->base;
  std::vector<uint8_t> raw(so->raw.begin()+sf,so->raw.begin()+sf+n),tag(so->tag.begin()+sf,so->tag.begin()+sf+n);
  std::vector<std::pair<u64,std::pair<Val,unsigned>>> sd;
  for(u64 i=0;i<n;){ if(tag[i]==2){ auto it=so->side.find(sf+i); if(i+it->second.second<=n){ sd.push_back({i,it->second}); i+=it->second.second; continue; } }
    if(tag[i]>=2){ Val b=bytesToVal(so,sf+i,1,8); if(b.k==Val::Int){ raw[i]=b.c; tag[i]=1; } else if(b.k==Val::Undef) tag[i]=0; else { sd.push_back({i,{b,1}}); tag[i]=2; } }
    i++; }
  clearSide(dobj,df,n);
  memcpy(&dobj->raw[df],raw.data(),n); memcpy(&dobj->tag[df],tag.data(),n);
  for(auto&e:sd) dobj->side[df+e.first]=e.second;
}
// ---------------------------------------------------------------- constants & globals
static u64 addrOf(const GlobalValue*g){ auto it=gaddr.find(g); if(it!=gaddr.end()) return it->second; engineError("no address for global "+g->getName().str()); }
static Val evalConst(const Constant*C);
static Val defaultVal(Type*T){
  if(T->isIntegerTy()) return T->getIntegerBitWidth()<=64?mkInt(0,T->getIntegerBitWidth()):mkSym(Z->bv_val(0,T->getIntegerBitWidth()),T->getIntegerBitWidth());
  if(T->isPointerTy()) return mkInt(0,64);
  if(T->isFloatingPointTy()) return mkRealC(0);
  std::vector<Val> v;
  if(auto*ST=dyn_cast<StructType>(T)) for(auto*E:ST->elements()) v.push_back(defaultVal(E));
  else if(auto*AT=dyn_cast<ArrayType>(T)) for(u64 i=0;i<AT->getNumElements();i++) v.push_back(defaultVal(AT->getElementType()));
  else if(auto*VT=dyn_cast<FixedVectorType>(T)) for(u64 i=0;i<VT->getNumElements();i++) v.push_back(defaultVal(VT->getElementType()));
  return mkAgg(v);
}
static Val undefVal(Type*T){
  if(T->isSingleValueType()&&!T->isVectorTy()) return mkUndef(T->isIntegerTy()?T->getIntegerBitWidth():64);
  std::vector<Val> v;
  if(auto*ST=dyn_cast<StructType>(T)) for(auto*E:ST->elements()) v.push_back(undefVal(E));
  else if(auto*AT=dyn_cast<ArrayType>(T)) for(u64 i=0;i<AT->getNumElements();i++) v.push_back(undefVal(AT->getElementType()));
  else if(auto*VT=dyn_cast<FixedVectorType>(T)) for(u64 i=0;i<VT->getNumElements();i++) v.push_back(undefVal(VT->getElementType()));
  return mkAgg(v);
}
static Val evalConst(const Constant*C){
  Type*T=C->getType();
  if(auto*CI=dyn_cast<ConstantInt>(C)){ unsigned w=CI->getBitWidth(); if(w<=64) return mkInt(CI->getZExtValue(),w); SmallString<64> s; CI->getValue().toString(s,10,false); return mkSym(Z->bv_val(s.c_str(),w),w); }
  if(auto*CF=dyn_cast<ConstantFP>(C)){ APFloat f=CF->getValueAPF(); bool li; if(T->isX86_FP80Ty()){ f.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&li); return mkRealD(f.convertToDouble()); } if(T->isFloatTy()) { return mkRealD(f.convertToFloat()); } f.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&li); return mkRealD(f.convertToDouble()); }
  if(isa<ConstantPointerNull>(C)) return mkInt(0,64);
  if(isa<ConstantAggregateZero>(C)) return defaultVal(T);
  if(isa<UndefValue>(C)) return undefVal(T);
  if(auto*G=dyn_cast<GlobalValue>(C)){ if(auto*GA=dyn_cast<GlobalAlias>(G)) return evalConst(GA->getAliasee()); return mkInt(addrOf(G),64); }
  if(auto*CDS=dyn_cast<ConstantDataSequential>(C)){ std::vector<Val> v; for(unsigned i=0;i<CDS->getNumElements();i++) v.push_back(evalConst(CDS->getElementAsConstant(i))); return mkAgg(v); }
  if(isa<ConstantAggregate>(C)){ std::vector<Val> v; for(unsigned i=0;i<C->getNumOperands();i++) v.push_back(evalConst(cast<Constant>(C->getOperand(i)))); return mkAgg(v); }
  if(auto*CE=dyn_cast<ConstantExpr>(C)){
    switch(CE->getOpcode()){
      case Instruction::GetElementPtr:{ auto*G=cast<GEPOperator>(CE); APInt off(64,0); if(!G->accumulateConstantOffset(*DL,off)) engineError("const gep"); Val b=evalConst(cast<Constant>(G->getPointerOperand())); return mkInt(b.c+off.getSExtValue(),64); }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Trunc: { Val v=evalConst(CE->getOperand(0)); if(v.k==Val::Int) return mkInt(v.c,T->isPointerTy()?64:T->isIntegerTy()?T->getIntegerBitWidth():64); return v; }
      case Instruction::Sub: { Val a=evalConst(CE->getOperand(0)),b=evalConst(CE->getOperand(1)); return mkInt(a.c-b.c,a.w); }
      case Instruction::Add: { Val a=evalConst(CE->getOperand(0)),b=evalConst(CE->getOperand(1)); return mkInt(a.c+b.c,a.w); }
      case Instruction::ICmp: { Val a=evalConst(CE->getOperand(0)),b=evalConst(CE->getOperand(1)); switch(CE->getPredicate()){ case CmpInst::ICMP_EQ:return mkInt(a.c==b.c,1); case CmpInst::ICMP_NE:return mkInt(a.c!=b.c,1); case CmpInst::ICMP_ULT:return mkInt(a.c<b.c,1); case CmpInst::ICMP_UGT:return mkInt(a.c>b.c,1); default:; } break; }
      default:;
    }
    std::string s; raw_string_ostream os(s); CE->print(os); engineError("constant expression "+s);
  }
  std::string s; raw_string_ostream os(s); C->print(os); engineError("constant "+s);
}
// ---------------------------------------------------------------- decoding
static DFunc* decode(Function*F){
  auto it=dfuncs.find(F); if(it!=dfuncs.end()) return it->second;
  auto*D=new DFunc; D->F=F; dfuncs[F]=D; DenseMap<const Value*,int> reg; int n=0;
  for(auto&A:F->args()) reg[&A]=n++;
  for(auto&B:*F){ D->bidx[&B]=D->bidx.size(); for(auto&I:B) if(!I.getType()->isVoidTy()) reg[&I]=n++; }
  D->nregs=n; DenseMap<const Constant*,int> cidx;
  auto opnd=[&](const Value*V)->int{ if(auto*C=dyn_cast<Constant>(V)){ auto jt=cidx.find(C); if(jt!=cidx.end()) return ~jt->second; int k=D->consts.size(); D->consts.push_back(evalConst(C)); cidx[C]=k; return ~k; } auto jt=reg.find(V); if(jt==reg.end()) return INT_MIN; return jt->second; };
  D->blocks.resize(F->size()); D->phi.resize(F->size());
  for(auto&B:*F){ int bi=D->bidx[&B]; auto&DB=D->blocks[bi]; std::set<int> subs;
    for(auto&I:B){
      if(auto&dl=I.getDebugLoc()){ DILocation*l=dl.get(); while(l){ if(auto*sp=l->getScope()->getSubprogram()){ auto jt=subIdx.find(sp); if(jt!=subIdx.end()) subs.insert(jt->second);} l=l->getInlinedAt(); } }
      if(auto*P=dyn_cast<PHINode>(&I)){ for(unsigned k=0;k<P->getNumIncomingValues();k++){ auto&vec=D->phi[bi][P->getIncomingBlock(k)]; bool dup=false; for(auto&pr:vec) if(pr.first==reg[P]) dup=true; if(!dup) vec.push_back({reg[P],opnd(P->getIncomingValue(k))}); } continue; }
      if(isa<DbgInfoIntrinsic>(&I)) continue;
      if(auto*II=dyn_cast<IntrinsicInst>(&I)){ auto id=II->getIntrinsicID(); if(id==Intrinsic::assume||id==Intrinsic::experimental_noalias_scope_decl||id==Intrinsic::invariant_start||id==Intrinsic::invariant_end) continue; }
      DInst d; d.op=I.getOpcode(); d.I=&I; d.dst=I.getType()->isVoidTy()?-1:reg[&I];
      if(auto*G=dyn_cast<GetElementPtrInst>(&I)){ d.ops.push_back(opnd(G->getPointerOperand())); i64 off=0; for(auto gi=gep_type_begin(G),ge=gep_type_end(G);gi!=ge;++gi){ Value*ix=gi.getOperand(); if(auto*ST=gi.getStructTypeOrNull()) off+=DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); else { u64 sz=DL->getTypeAllocSize(gi.getIndexedType()); if(auto*CI=dyn_cast<ConstantInt>(ix)) off+=CI->getSExtValue()*(i64)sz; else d.gep.push_back({opnd(ix),sz}); } } d.off=off; }
      else if(auto*CB=dyn_cast<CallBase>(&I)){ for(auto&a:CB->args()){ if(isa<MetadataAsValue>(a.get())) d.ops.push_back(INT_MIN); else d.ops.push_back(opnd(a.get())); } Value*cv=CB->getCalledOperand()->stripPointerCasts(); if(auto*fa=dyn_cast<GlobalAlias>(cv)) cv=fa->getAliaseeObject(); if(auto*cf=dyn_cast<Function>(cv)){ d.extra=1; (void)cf; } else { d.extra=0; if(!isa<InlineAsm>(cv)) d.ops.push_back(opnd(CB->getCalledOperand())); } }
      else if(isa<BranchInst>(&I)){ auto*BI=cast<BranchInst>(&I); if(BI->isConditional()) d.ops.push_back(opnd(BI->getCondition())); }
      else if(auto*SI=dyn_cast<SwitchInst>(&I)) d.ops.push_back(opnd(SI->getCondition()));
      else for(auto&o:I.operands()) if(!isa<BasicBlock>(o.get())) d.ops.push_back(opnd(o.get()));
      if(I.getType()->isIntegerTy()) d.w=I.getType()->getIntegerBitWidth(); else if(I.getType()->isPointerTy()) d.w=64;
      DB.insts.push_back(std::move(d));
    }
    DB.subs.assign(subs.begin(),subs.end());
  }
  return D;
}
static inline const Val& get(Frame&f,int i){ if(i>=0) return f.regs[i]; return f.df->consts[~i]; }

// ---------------------------------------------------------------- operations
static u64 concretize(const Val&v0,const char*what){
  if(v0.k==Val::Int) return v0.c;
  if(v0.k==Val::Undef) violationEnd("uninit",std::string("uninitialised value used as ")+what);
  if(v0.k==Val::Real){ auto&r=realR(v0); if(r.special||r.cst){ double d=r.special?r.sp:r.c.get_d(); u64 b; memcpy(&b,&d,8); return b; } engineError("real used as integer"); }
  if(v0.k!=Val::Sym) engineError("concretize aggregate");
  z3::expr e=symE(v0);
  static std::unordered_map<unsigned,std::pair<z3::expr,u64>> known; // values fixed by this path (path conditions only grow)
  { auto it=known.find(Z3_get_ast_id(*Z,e)); if(it!=known.end()) return it->second.second; }
  auto remember=[&](u64 c){ known.insert({Z3_get_ast_id(*Z,e),{e,c}}); return c; };
  for(int n=0;n<4096;n++){
    // value under the current assignment
    z3::expr_vector from(*Z),to(*Z); for(unsigned v:collectVars(e)){ auto it=asg->find(v); auto jt=varById->find(v); if(it==asg->end()) continue; from.push_back(jt->second); to.push_back(it->second); }
    z3::expr r=e; r=r.substitute(from,to).simplify(); uint64_t c;
    if(v0.w==1) c=r.is_true(); else if(!r.is_numeral_u64(c)) engineError("cannot evaluate symbolic value in model");
    z3::expr eq = v0.w==1 ? (c?e:!e) : (e==Z->bv_val((uint64_t)c,v0.w));
    std::map<unsigned,z3::expr> nn; int rr=solve((!eq).simplify(),&nn); if(rr==-1) engineError("solver: unknown in concretisation");
    if(rr==0) return remember(c);      // implied
    if(forkState()){ addPC(eq.simplify()); return remember(c); }
    checkStop();
    addPC((!eq).simplify()); mergeAsg(nn);
  }
  engineError(std::string("too many values for ")+what);
}
static bool decideVal(const Val&v){ if(v.k==Val::Int) return v.c&1; if(v.k==Val::Undef) violationEnd("uninit","branch on uninitialised value"); return decide(symE(v)); }

static Val binop(unsigned op,const Val&a,const Val&b,unsigned w){
  if(a.k==Val::Undef||b.k==Val::Undef){
    if(op==Instruction::And&&((a.k==Val::Int&&a.c==0)||(b.k==Val::Int&&b.c==0))) return mkInt(0,w);
    if(op==Instruction::Mul&&((a.k==Val::Int&&a.c==0)||(b.k==Val::Int&&b.c==0))) return mkInt(0,w);
    // bit sets: setting or masking bits of a partially initialised word keeps the definedness of the other bits;
    // the unknown bits become fresh unconstrained values (anything that depends on them is then not provable)
    if((op==Instruction::And||op==Instruction::Or)&&w>1&&w<=64&&(a.k==Val::Int||b.k==Val::Int)){
      static u64 nUndef=0; Val u=mkSym(newVar("undef!"+std::to_string(nUndef++),Z->bv_sort(w)),w);
      return binop(op,a.k==Val::Undef?u:a,b.k==Val::Undef?u:b,w); }
    return mkUndef(w); }
  if(a.k==Val::Real||b.k==Val::Real){ Val x=a,y=b; if(x.k==Val::Real) x=mkInt(concretize(x,"int"),w); if(y.k==Val::Real) y=mkInt(concretize(y,"int"),w); return binop(op,x,y,w); }
  if(a.k==Val::Int&&b.k==Val::Int&&w<=64){
    u64 x=a.c,y=b.c; i64 sx=sxt(x,w),sy=sxt(y,w);
    switch(op){
      case Instruction::Add:return mkInt(x+y,w); case Instruction::Sub:return mkInt(x-y,w); case Instruction::Mul:return mkInt(x*y,w);
      case Instruction::UDiv: if(!y) violationEnd("arith","division by zero"); return mkInt(x/y,w);
      case Instruction::URem: if(!y) violationEnd("arith","division by zero"); return mkInt(x%y,w);
      case Instruction::SDiv: if(!y) violationEnd("arith","division by zero"); if(sy==-1) return mkInt(0-x,w); return mkInt(sx/sy,w);
      case Instruction::SRem: if(!y) violationEnd("arith","division by zero"); if(sy==-1) return mkInt(0,w); return mkInt(sx%sy,w);
      case Instruction::Shl: if(y>=w) return mkUndef(w); return mkInt(x<<y,w); case Instruction::LShr: if(y>=w) return mkUndef(w); return mkInt(x>>y,w); case Instruction::AShr: if(y>=w) return mkUndef(w); return mkInt(sx>>y,w);
      case Instruction::And:return mkInt(x&y,w); case Instruction::Or:return mkInt(x|y,w); case Instruction::Xor:return mkInt(x^y,w);
    }
  }
  z3::expr x=bvOf(a),y=bvOf(b);
  if(w==1){ switch(op){ case Instruction::And: case Instruction::Mul: return mkSym((x&&y).simplify(),1); case Instruction::Or: return mkSym((x||y).simplify(),1); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return mkSym((x!=y).simplify(),1); default: engineError("i1 op"); } }
  switch(op){
    case Instruction::Add:return mkSym((x+y).simplify(),w); case Instruction::Sub:return mkSym((x-y).simplify(),w); case Instruction::Mul:return mkSym((x*y).simplify(),w);
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:{
      if(b.k==Val::Sym&&decide(y==Z->bv_val(0,w))) violationEnd("arith","division by zero"); if(b.k==Val::Int&&b.c==0) violationEnd("arith","division by zero");
      z3::expr r= op==Instruction::UDiv?z3::udiv(x,y):op==Instruction::URem?z3::urem(x,y):op==Instruction::SDiv?(x/y):z3::srem(x,y); return mkSym(r.simplify(),w); }
    case Instruction::Shl:return mkSym(z3::shl(x,y).simplify(),w); case Instruction::LShr:return mkSym(z3::lshr(x,y).simplify(),w); case Instruction::AShr:return mkSym(z3::ashr(x,y).simplify(),w);
    case Instruction::And:return mkSym((x&y).simplify(),w); case Instruction::Or:return mkSym((x|y).simplify(),w); case Instruction::Xor:return mkSym((x^y).simplify(),w);
  }
  engineError("binop");
}
static Val icmp(CmpInst::Predicate p,const Val&a0,const Val&b0,unsigned w){
  Val a=a0,b=b0;
  if(a.k==Val::Undef||b.k==Val::Undef) return mkUndef(1);
  if(a.k==Val::Real) a=mkInt(concretize(a,"int"),w); if(b.k==Val::Real) b=mkInt(concretize(b,"int"),w);
  if(a.k==Val::Int&&b.k==Val::Int){ u64 x=a.c,y=b.c; i64 sx=sxt(x,w),sy=sxt(y,w); bool r;
    switch(p){case CmpInst::ICMP_EQ:r=x==y;break;case CmpInst::ICMP_NE:r=x!=y;break;case CmpInst::ICMP_ULT:r=x<y;break;case CmpInst::ICMP_ULE:r=x<=y;break;case CmpInst::ICMP_UGT:r=x>y;break;case CmpInst::ICMP_UGE:r=x>=y;break;case CmpInst::ICMP_SLT:r=sx<sy;break;case CmpInst::ICMP_SLE:r=sx<=sy;break;case CmpInst::ICMP_SGT:r=sx>sy;break;case CmpInst::ICMP_SGE:r=sx>=sy;break;default:engineError("icmp");} return mkInt(r,1); }
  z3::expr x=bvOf(a),y=bvOf(b); z3::expr r(*Z);
  if(w==1){ switch(p){case CmpInst::ICMP_EQ:r=x==y;break;case CmpInst::ICMP_NE:r=x!=y;break;case CmpInst::ICMP_ULT:r=!x&&y;break;case CmpInst::ICMP_ULE:r=!x||y;break;case CmpInst::ICMP_UGT:r=x&&!y;break;case CmpInst::ICMP_UGE:r=x||!y;break;case CmpInst::ICMP_SLT:r=x&&!y;break;case CmpInst::ICMP_SGT:r=!x&&y;break;case CmpInst::ICMP_SLE:r=x||!y;break;case CmpInst::ICMP_SGE:r=!x||y;break;default:engineError("icmp i1");} return mkSym(r.simplify(),1); }
  switch(p){case CmpInst::ICMP_EQ:r=x==y;break;case CmpInst::ICMP_NE:r=x!=y;break;case CmpInst::ICMP_ULT:r=z3::ult(x,y);break;case CmpInst::ICMP_ULE:r=z3::ule(x,y);break;case CmpInst::ICMP_UGT:r=z3::ugt(x,y);break;case CmpInst::ICMP_UGE:r=z3::uge(x,y);break;case CmpInst::ICMP_SLT:r=z3::slt(x,y);break;case CmpInst::ICMP_SLE:r=z3::sle(x,y);break;case CmpInst::ICMP_SGT:r=z3::sgt(x,y);break;case CmpInst::ICMP_SGE:r=z3::sge(x,y);break;default:engineError("icmp");}
  return mkSym(r.simplify(),1);
}
static double approx(const RealNum&r){ return r.special?r.sp:r.c.get_d(); }
static Val realCmp(const RealNum&a,const RealNum&b,Cmp o){
  RealNum d=rAdd(a,b,true);
  if(d.cst){ int s=sgn(d.c); bool r= o==EQ?s==0:o==NE?s!=0:o==LT?s<0:o==LE?s<=0:o==GT?s>0:s>=0; return mkInt(r,1); }
  return mkSym(relE(d,o).simplify(),1);
}
static Val fcmp(CmpInst::Predicate p,const Val&a,const Val&b){
  if(p==CmpInst::FCMP_TRUE) return mkInt(1,1); if(p==CmpInst::FCMP_FALSE) return mkInt(0,1);
  if(a.k==Val::Undef||b.k==Val::Undef) return mkUndef(1);
  auto&x=realR(a);auto&y=realR(b);
  if(x.special||y.special){
    double dx=x.special?x.sp:x.cst?x.c.get_d():0, dy=y.special?y.sp:y.cst?y.c.get_d():0; bool un=std::isnan(dx)||std::isnan(dy); bool r;
    switch(p){case CmpInst::FCMP_OEQ:r=!un&&dx==dy;break;case CmpInst::FCMP_UEQ:r=un||dx==dy;break;case CmpInst::FCMP_ONE:r=!un&&dx!=dy;break;case CmpInst::FCMP_UNE:r=un||dx!=dy;break;case CmpInst::FCMP_OLT:r=!un&&dx<dy;break;case CmpInst::FCMP_ULT:r=un||dx<dy;break;case CmpInst::FCMP_OLE:r=!un&&dx<=dy;break;case CmpInst::FCMP_ULE:r=un||dx<=dy;break;case CmpInst::FCMP_OGT:r=!un&&dx>dy;break;case CmpInst::FCMP_UGT:r=un||dx>dy;break;case CmpInst::FCMP_OGE:r=!un&&dx>=dy;break;case CmpInst::FCMP_UGE:r=un||dx>=dy;break;case CmpInst::FCMP_ORD:r=!un;break;case CmpInst::FCMP_UNO:r=un;break;default:engineError("fcmp");} return mkInt(r,1); }
  switch(p){case CmpInst::FCMP_OEQ:case CmpInst::FCMP_UEQ:return realCmp(x,y,EQ);case CmpInst::FCMP_ONE:case CmpInst::FCMP_UNE:return realCmp(x,y,NE);case CmpInst::FCMP_OLT:case CmpInst::FCMP_ULT:return realCmp(x,y,LT);case CmpInst::FCMP_OLE:case CmpInst::FCMP_ULE:return realCmp(x,y,LE);case CmpInst::FCMP_OGT:case CmpInst::FCMP_UGT:return realCmp(x,y,GT);case CmpInst::FCMP_OGE:case CmpInst::FCMP_UGE:return realCmp(x,y,GE);case CmpInst::FCMP_ORD:return mkInt(1,1);case CmpInst::FCMP_UNO:return mkInt(0,1);default:engineError("fcmp");}
}
static Val fop(unsigned op,const Val&a,const Val&b){
  if(a.k==Val::Agg||b.k==Val::Agg){ std::vector<Val> v; for(size_t i=0;i<aggV(a).size();i++) v.push_back(fop(op,aggV(a)[i],aggV(b)[i])); return mkAgg(v); }
  if(a.k==Val::Undef||b.k==Val::Undef) return mkUndef(64);
  auto&x=realR(a);auto&y=realR(b);
  if(x.special||y.special){
    double dx=x.special?x.sp:x.cst?x.c.get_d():NAN, dy=y.special?y.sp:y.cst?y.c.get_d():NAN,r;
    switch(op){case Instruction::FAdd:r=dx+dy;break;case Instruction::FSub:r=dx-dy;break;case Instruction::FMul:r=dx*dy;break;case Instruction::FDiv:r=dx/dy;break;default:r=fmod(dx,dy);} return mkRealD(r); }
  switch(op){
    case Instruction::FAdd:return mkReal(rAdd(x,y,false)); case Instruction::FSub:return mkReal(rAdd(x,y,true)); case Instruction::FMul:return mkReal(rMul(x,y));
    case Instruction::FDiv:{
      if(y.cst){ if(y.c==0){ RealNum r; r.special=true; r.sp= x.cst? (x.c==0?NAN:(x.c>0?INFINITY:-INFINITY)):NAN; return mkReal(r);} }
      else if(decide(relE(y,EQ))){ RealNum r; r.special=true; r.sp=NAN; return mkReal(r); }
      return mkReal(rMul(x,rInv(y))); }
    case Instruction::FRem:{ if(x.cst&&y.cst&&y.c!=0){ mpq_class q=x.c/y.c; mpz_class t=q.get_num()/q.get_den(); return mkRealC(x.c-mpq_class(t)*y.c);} engineError("symbolic frem"); }
  }
  engineError("fop");
}
static int newRVar(const std::string&n){ int id=rvars.size(); RVar v; v.name=n; rvars.push_back(v); rvarE->push_back(newVar(n,Z->real_sort())); return id; }
static std::map<std::string,int> funcVars;
static std::string realKey(const RealNum&r){ if(r.special) return std::to_string(r.sp); if(r.cst) return r.c.get_str(); return r.num.str()+"/"+(r.denOne?"1":r.den.str()); }
static Val realVarVal(int id){ RealNum r; r.cst=false; r.num=Poly::var(id); return mkReal(r); }
// a new real variable must get a value in the assignment: re-solve if constrained
static void constrainNew(const z3::expr&c){ std::map<unsigned,z3::expr> n; int r=solve(c,&n); if(r!=1) engineError("solver: cannot define auxiliary real"); mergeAsg(n); addPC(c); }
static bool polyRange(const Poly&p,mpq_class&lo,mpq_class&hi);
static Val doSqrt(const Val&a){
  if(a.k==Val::Undef) return a; auto&x=realR(a);
  if(x.special) return mkRealD(std::sqrt(x.sp));
  if(x.cst){ if(x.c<0) return mkRealD(NAN); mpz_class n,d; if(mpz_perfect_square_p(x.c.get_num_mpz_t())&&mpz_perfect_square_p(x.c.get_den_mpz_t())){ mpz_sqrt(n.get_mpz_t(),x.c.get_num_mpz_t()); mpz_sqrt(d.get_mpz_t(),x.c.get_den_mpz_t()); return mkRealC(mpq_class(n,d)); } }
  else if(decide(relE(x,LT))) return mkRealD(NAN);
  // sqrt(n/d) = s/d with s^2=n*d (d>0) ; for d<0: s/(-d)
  Poly nd,den; bool dn=x.cst?x.c.get_den()==1:x.denOne; Poly num;
  if(x.cst){ nd=Poly(mpq_class(x.c.get_num()*x.c.get_den())); den=Poly(mpq_class(x.c.get_den())); dn=false; }
  else if(x.denOne){ nd=x.num; den=Poly(mpq_class(1)); dn=true; }
  else { den=x.den; RealNum dd; dd.cst=false; dd.num=den; if(decide(relE(dd,LT))) { den=-den; nd=(-x.num)*den; } else nd=x.num*den; }
  std::string key="sqrt("+nd.str()+")"; auto it=funcVars.find(key); int id;
  if(it!=funcVars.end()) id=it->second; else {
    id=newRVar("sqrt!"+std::to_string(rvars.size())); funcVars[key]=id; z3::expr s=(*rvarE)[id];
    constrainNew(s>=Z->real_val(0)&&s*s==polyE(nd)); { mpq_class lo,hi; if(polyRange(nd,lo,hi)){ rvars[id].bounded=true; rvars[id].lo=0; if(lo>0) rvars[id].lo=std::min(mpq_class(1),lo); rvars[id].hi=std::max(mpq_class(1),hi); } } rvars[id].sq=std::make_shared<Poly>(nd); }
  RealNum r; r.cst=false; r.num=Poly::var(id); if(!dn){ r.den=den; r.denOne=den.isConst()&&den.constant()==1; } normalize(r); return mkReal(r);
}
static Val uninterp(const std::string&f,std::vector<Val> as){
  std::string key=f; bool allc=true; for(auto&a:as){ if(a.k==Val::Undef) return a; key+="|"+realKey(realR(a)); if(realR(a).special) return mkRealD(NAN); if(!realR(a).cst) allc=false; }
  if(allc){ auto&x=realR(as[0]).c; if(x==0){ if(f=="sin"||f=="tan"||f=="atan"||f=="asin") return mkRealC(0); if(f=="cos"||f=="exp") return mkRealC(1); } if(f=="log"&&x==1) return mkRealC(0); }
  // sin/cos parity
  auto it=funcVars.find(key); if(it!=funcVars.end()) return realVarVal(it->second);
  int id=newRVar(f+"!"+std::to_string(rvars.size())); funcVars[key]=id; z3::expr v=(*rvarE)[id];
  if(f=="sin"||f=="cos") constrainNew(v>=Z->real_val(-1)&&v<=Z->real_val(1)); else if(f=="exp") constrainNew(v>Z->real_val(0)); else asg->insert_or_assign(Z3_get_ast_id(*Z,v),Z->real_val(0));
  return realVarVal(id);
}
static Val doAbs(const Val&a){ if(a.k==Val::Undef) return a; auto&x=realR(a); if(x.special) return mkRealD(std::fabs(x.sp)); if(x.cst) return mkRealC(abs(x.c)); if(decide(relE(x,LT))) return mkReal(rNeg(x)); return a; }
static Val rsub(const Val&a,const Val&b){ return fop(Instruction::FSub,a,b); }
// floor of a real, forking over integer values
static mpz_class floorReal(const Val&a){
  auto&x=realR(a); if(x.special) engineError("floor of special");
  if(x.cst){ mpz_class r; mpz_fdiv_q(r.get_mpz_t(),x.c.get_num_mpz_t(),x.c.get_den_mpz_t()); return r; }
  for(int n=0;n<256;n++){
    z3::expr e=realE(x); z3::expr_vector from(*Z),to(*Z); for(unsigned v:collectVars(e)){ auto it=asg->find(v); if(it==asg->end()) continue; from.push_back(varById->at(v)); to.push_back(it->second); }
    z3::expr r=e.substitute(from,to).simplify(); std::string ds=r.get_decimal_string(30); if(!ds.empty()&&ds.back()=='?') ds.pop_back(); double d=strtod(ds.c_str(),nullptr); mpz_class k((double)std::floor(d));
    RealNum kk; kk.c=mpq_class(k); RealNum k1; k1.c=mpq_class(k+1);
    Val c1=realCmp(x,kk,GE),c2=realCmp(x,k1,LT); z3::expr c=bvOf(c1)&&bvOf(c2);
    if(decide(c)) return k;
  }
  engineError("floor: too many values");
}

// ---------------------------------------------------------------- strings from memory
static std::string readStr(u64 a){ std::string s; for(int i=0;i<2000;i++){ Obj*o=access(a+i,1,"string"); if(o->tag[a+i-o->base]!=1) break; char c=o->raw[a+i-o->base]; if(!c) break; s+=c; } return s; }

// ---------------------------------------------------------------- exceptions
struct Exc{ u64 ptr,ti,dtor; int refs; };
static std::map<u64,Exc> excs; static std::vector<u64> caught; static u64 pending=0;
static std::map<u64,int> typeIds;
static int typeId(u64 ti){ auto it=typeIds.find(ti); if(it!=typeIds.end()) return it->second; int k=typeIds.size()+1; typeIds[ti]=k; return k; }
static const GlobalVariable* gvAt(u64 a){ static std::map<u64,const GlobalVariable*> m; if(m.empty()) for(auto&g:M->globals()){ auto it=gaddr.find(&g); if(it!=gaddr.end()) m[it->second]=&g; } auto it=m.find(a); return it==m.end()?nullptr:it->second; }
static bool isBaseOf(u64 base,u64 der){ if(base==der) return true; auto*g=gvAt(der); if(!g||!g->hasInitializer()) return false; auto*I=g->getInitializer(); for(unsigned i=2;i<I->getNumOperands();i++){ auto*b=dyn_cast<Constant>(I->getOperand(i)); if(!b||!b->getType()->isPointerTy()) continue; auto*s=b->stripPointerCasts(); if(auto*bg=dyn_cast<GlobalVariable>(s)) if(gaddr.count(bg)&&isBaseOf(gaddr[bg],base==0?0:base)?false:false) return true; if(auto*bg=dyn_cast<GlobalVariable>(s)) if(gaddr.count(bg)){ u64 ba=gaddr[bg]; if(ba==base) return true; if(isBaseOf(base,ba)) return true; } } return false; }
static std::string tiName(u64 ti){ auto*g=gvAt(ti); return g?demangle(g->getName().str()):"?"; }
static void popFrame(){ for(u64 a:stk.back().allocas){ auto it=objs.find(a); if(it!=objs.end()){ Obj*o=it->second; if(lastObj==o) lastObj=nullptr; objs.erase(it); o->raw.clear();o->raw.shrink_to_fit();o->tag.clear();o->tag.shrink_to_fit();o->side.clear(); freedObjs[a]=o; } } stk.pop_back(); }
static void enterBlock(Frame&f,const BasicBlock*to){
  int bi=f.df->bidx[to]; const BasicBlock*from=nullptr; { auto&I=f.df->blocks[f.bb]; (void)I; }
  from=f.prev; auto&mp=f.df->phi[bi]; auto it=mp.find(from);
  if(it!=mp.end()){ auto&v=it->second; if(v.size()==1) { Val x=get(f,v[0].second); f.regs[v[0].first]=x; } else { std::vector<Val> tmp; tmp.reserve(v.size()); for(auto&pr:v) tmp.push_back(get(f,pr.second)); for(size_t i=0;i<v.size();i++) f.regs[v[i].first]=std::move(tmp[i]); } }
  f.bb=bi; f.pc=0; auto&B=f.df->blocks[bi]; if(!B.marked){ B.marked=true; for(int s:B.subs) S->sub[s]=1; }
}
static void unwind(u64 ex){
  // current frame: the one executing the throwing call (its pc already advanced past the call)
  while(true){
    if(stk.empty()){ violationEnd("exception","uncaught exception "+tiName(excs[ex].ti)); }
    Frame&f=stk.back(); const Instruction*I=f.df->blocks[f.bb].insts[f.pc-1].I;
    if(auto*IV=dyn_cast<InvokeInst>(I)){
      auto*LP=IV->getLandingPadInst(); bool match=LP->isCleanup(); int sel=0;
      for(unsigned c=0;c<LP->getNumClauses();c++){ if(LP->isCatch(c)){ auto*ti=LP->getClause(c)->stripPointerCasts(); if(isa<ConstantPointerNull>(ti)){ match=true; sel=typeId(0); break; } u64 ta=gaddr[cast<GlobalValue>(ti)]; if(isBaseOf(ta,excs[ex].ti)){ match=true; sel=typeId(ta); break; } } else { match=true; } }
      if(match){ f.prev=IV->getParent(); enterBlock(f,IV->getUnwindDest()); 
        // landingpad is first non-phi: find it
        auto&B=f.df->blocks[f.bb]; auto&d=B.insts[0]; if(d.op!=Instruction::LandingPad) engineError("landingpad expected"); f.regs[d.dst]=mkAgg({mkInt(ex,64),mkInt(sel,32)}); f.pc=1; return; }
    }
    if(stk.size()==1){ violationEnd("exception","uncaught exception "+tiName(excs[ex].ti)); }
    popFrame();
  }
}
// ---------------------------------------------------------------- builtins
static std::map<std::string,int> reachIdx; static std::map<std::string,int> chkIdx;
static std::map<std::string,int> nameCount; static const char* entryName="harness";
static bool startsWith(const std::string&s,const char*p){ return s.compare(0,strlen(p),p)==0; }
static u64 doMalloc(u64 n,u64 align=16){ if(n>(1ull<<28)) violationEnd("memory","huge allocation "+std::to_string(n)); Obj*o=newObj(n?n:1,1,align); return o->base; }
static void doFree(u64 p){ if(!p) return; auto it=objs.find(p); if(it==objs.end()||it->second->kind!=1){ violationEnd("memory",freedObjs.count(p)?"double free":"invalid free"); } Obj*o=it->second; if(lastObj==o) lastObj=nullptr; objs.erase(it); o->raw.clear();o->raw.shrink_to_fit(); o->tag.clear();o->tag.shrink_to_fit(); o->side.clear(); freedObjs[p]=o; }
// square roots of constants: s = s0+eps with a rational s0 and |eps|<=2^-60
static Poly centreRoots(const Poly&p){
  static std::map<int,std::pair<mpq_class,int>> eps; Poly r;
  for(auto&[m,c]:p.t){ Poly f; f.t[Mono{}]=c; for(auto x:m){ int v=x>>8; if(!(rvars[v].sq&&rvars[v].sq->isConst())){ Poly g; g.t[Mono{x}]=1; f=f*g; continue; }
      auto it=eps.find(v); if(it==eps.end()){ mpz_class n; mpq_class k=rvars[v].sq->constant(); mpz_class sc=mpz_class(1)<<140; mpz_class t=(k.get_num()*sc)/k.get_den(); mpz_sqrt(n.get_mpz_t(),t.get_mpz_t()); mpq_class s0(n,mpz_class(1)<<70); s0.canonicalize(); int id=newRVar("eps!"+std::to_string(rvars.size())); rvars[id].bounded=true; rvars[id].hi=mpq_class(1,mpz_class(1)<<60); rvars[id].lo=-rvars[id].hi; it=eps.emplace(v,std::make_pair(s0,id)).first; }
      Poly g=Poly::var(it->second.second); g.addTerm(Mono{},it->second.first); for(unsigned k=0;k<(x&255);k++) f=f*g; }
    r=r+f; }
  return r; }
static int relaxUnsat(const Poly&p0,const mpq_class&tol){ // |p|<=tol for all boxes, by linear relaxation decided by z3 (LRA)
  Poly p=centreRoots(p0);
  for(auto&[m,c]:p.t) for(auto x:m) if(!rvars[x>>8].bounded) return 0;
  z3::solver s(*Z,"QF_LRA"); z3::expr sum=Z->real_val(0); int k=0;
  for(auto&[m,c]:p.t){ if(m.empty()){ sum=sum+mpqE(c); continue; } mpq_class B=1; for(auto x:m){ mpq_class b=std::max(abs(rvars[x>>8].lo),abs(rvars[x>>8].hi)); for(unsigned e=0;e<(x&255);e++) B*=b; } z3::expr v=Z->constant(("mono!"+std::to_string(k++)).c_str(),Z->real_sort()); s.add(v>=mpqE(-B)); s.add(v<=mpqE(B)); sum=sum+mpqE(c)*v; }
  s.add(sum>mpqE(tol)||sum<mpqE(-tol)); double t0=nowS(); auto r=s.check(); S->queries++; S->solver_ns+=(u64)((nowS()-t0)*1e9); if(r==z3::unsat){ S->qunsat++; return 1; } return 0;
}
// interval enclosure of a polynomial over the boxes of its variables, monomial by monomial
static bool polyRange(const Poly&p,mpq_class&lo,mpq_class&hi){
  lo=0; hi=0; for(auto&[m,c]:p.t){ mpq_class a=c,b=c; for(auto x:m){ auto&v=rvars[x>>8]; if(!v.bounded) return false; mpq_class l=v.lo,h=v.hi; unsigned e=x&255; mpq_class pl=1,ph=1; for(unsigned k=0;k<e;k++){ pl*=l; ph*=h; } if(e%2==0){ if(l<0&&h>0){ ph=std::max(pl,ph); pl=0; } else if(pl>ph) std::swap(pl,ph); }
      mpq_class c1=a*pl,c2=a*ph,c3=b*pl,c4=b*ph; a=std::min(std::min(c1,c2),std::min(c3,c4)); b=std::max(std::max(c1,c2),std::max(c3,c4)); } lo+=a; hi+=b; } return true; }
static bool denBelow(const Poly&den,mpq_class&delta){ // |den|>=delta>0 on the boxes
  delta=1; Poly d=den,q; mpq_class lo,hi; auto one=[&](const Poly&f){ // |f| bounded below, bisecting the boxes where needed
    std::vector<int> vs; for(auto&[m,c]:f.t) for(auto x:m){ int v=x>>8; if(!rvars[v].bounded) return false; if(std::find(vs.begin(),vs.end(),v)==vs.end()) vs.push_back(v); }
    int budget=400, sg=0; mpq_class mn=-1; std::function<bool(int)> rec=[&](int depth){ if(--budget<0) return false; if(!polyRange(f,lo,hi)) return false; if(lo>0||hi<0){ int g=lo>0?1:-1; if(sg&&sg!=g) return false; sg=g; mpq_class b=lo>0?lo:mpq_class(-hi); if(mn<0||b<mn) mn=b; return true; }
      if(depth>12||vs.empty()) return false; int v=vs[0]; for(int w:vs) if(rvars[w].hi-rvars[w].lo>rvars[v].hi-rvars[v].lo) v=w; mpq_class l=rvars[v].lo,h=rvars[v].hi,mid=(l+h)/2; rvars[v].hi=mid; bool ok=rec(depth+1); rvars[v].hi=h; if(ok){ rvars[v].lo=mid; ok=rec(depth+1); rvars[v].lo=l; } return ok; };
    if(!rec(0)) return false; delta*=mn; return true; };
  for(auto&f:atoms) while(d.degree()>0&&d.divExact(f,q)){ if(!one(f)) return false; d=q; } return one(d); }
static void doCheck(const z3::expr&cond,const std::string&msg){
  z3::expr neg=(!cond).simplify(); S->checks_solver++;
  if(neg.is_false()) return;
  std::map<unsigned,z3::expr> n; int r=solve(neg,&n);
  if(r==-1) engineError("solver: unknown in check: "+msg);
  if(r==1){ if(msgCount[msg]++<1) reportViolation("check",msg,&n); assumeE(cond); }
}
static void countCheck(const std::string&msg){ S->checks++; auto it=chkIdx.find(msg); unsigned h; if(it==chkIdx.end()){ h=std::hash<std::string>()(msg)%MAXMSG; chkIdx[msg]=h; } else h=it->second; S->chkcount[h]++; }
static bool retVoid=false;
// returns true if handled; result in ret; may unwind (throwing=true)
static bool builtin(Frame&f,const DInst&d,const CallBase*CB,Function*F,Val&ret,bool&threw){
  threw=false; std::string nm=F->getName().str();
  auto A=[&](unsigned i)->const Val&{ return get(f,d.ops[i]); };
  auto R=[&](unsigned i)->const Val&{ const Val&v=get(f,d.ops[i]); return v; };
  if(F->isIntrinsic()){
    auto id=F->getIntrinsicID();
    switch(id){
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:{ Val pv=A(1); if(pv.k!=Val::Int) return true; auto it=objs.find(pv.c); if(it==objs.end()||it->second->kind!=2) return true; Obj*o=it->second; std::fill(o->tag.begin(),o->tag.end(),0); o->side.clear(); return true; }
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:{ u64 n=concretize(A(2),"memcpy size"); u64 a=concretize(A(0),"memcpy dst"),b=concretize(A(1),"memcpy src"); if(n) copyMem(a,b,n); return true; }
      case Intrinsic::memset:{ u64 n=concretize(A(2),"memset size"); if(!n) return true; u64 a=concretize(A(0),"memset dst"); Obj*o=access(a,n,"memset"); u64 off=a-o->base; clearSide(o,off,n); Val b=A(1); if(b.k==Val::Int){ memset(&o->raw[off],b.c,n); memset(&o->tag[off],1,n);} else for(u64 i=0;i<n;i++) storeScalar(o,off+i,b,1,nullptr); return true; }
      case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin:{ unsigned w=d.w; auto pr= id==Intrinsic::umax?CmpInst::ICMP_UGT:id==Intrinsic::umin?CmpInst::ICMP_ULT:id==Intrinsic::smax?CmpInst::ICMP_SGT:CmpInst::ICMP_SLT; Val c=icmp(pr,A(0),A(1),w); if(c.k==Val::Int) ret=c.c?A(0):A(1); else if(c.k==Val::Undef) ret=mkUndef(w); else ret=mkSym(z3::ite(symE(c),bvOf(A(0)),bvOf(A(1))).simplify(),w); return true; }
      case Intrinsic::abs:{ unsigned w=d.w; Val c=icmp(CmpInst::ICMP_SLT,A(0),mkInt(0,w),w); Val ng=binop(Instruction::Sub,mkInt(0,w),A(0),w); if(c.k==Val::Int) ret=c.c?ng:A(0); else ret=mkSym(z3::ite(symE(c),bvOf(ng),bvOf(A(0))).simplify(),w); return true; }
      case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz:{ Val a=A(0); u64 c=concretize(a,"ctpop"); unsigned w=d.w; u64 r; if(id==Intrinsic::ctpop) r=__builtin_popcountll(c); else if(id==Intrinsic::ctlz) r=c?__builtin_clzll(c)-(64-w):w; else r=c?__builtin_ctzll(c):w; ret=mkInt(r,w); return true; }
      case Intrinsic::usub_sat:{ unsigned w=d.w; Val c=icmp(CmpInst::ICMP_ULT,A(0),A(1),w); Val df=binop(Instruction::Sub,A(0),A(1),w); if(c.k==Val::Int) ret=c.c?mkInt(0,w):df; else ret=mkSym(z3::ite(symE(c),Z->bv_val(0,w),bvOf(df)).simplify(),w); return true; }
      case Intrinsic::uadd_sat:{ unsigned w=d.w; Val sm=binop(Instruction::Add,A(0),A(1),w); Val c=icmp(CmpInst::ICMP_ULT,sm,A(0),w); if(c.k==Val::Int) ret=c.c?mkInt(~0ull,w):sm; else ret=mkSym(z3::ite(symE(c),Z->bv_val((uint64_t)maskw(~0ull,w),w),bvOf(sm)).simplify(),w); return true; }
      case Intrinsic::umul_with_overflow:{ u64 a=concretize(A(0),"mul"),b=concretize(A(1),"mul"); unsigned w=A(0).w; unsigned __int128 p=(unsigned __int128)a*b; ret=mkAgg({mkInt((u64)p,w),mkInt((p>>w)!=0,1)}); return true; }
      case Intrinsic::uadd_with_overflow:{ unsigned w=A(0).w; Val sm=binop(Instruction::Add,A(0),A(1),w); ret=mkAgg({sm,icmp(CmpInst::ICMP_ULT,sm,A(0),w)}); return true; }
      case Intrinsic::usub_with_overflow:{ unsigned w=A(0).w; ret=mkAgg({binop(Instruction::Sub,A(0),A(1),w),icmp(CmpInst::ICMP_ULT,A(0),A(1),w)}); return true; }
      case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:{ unsigned w=A(0).w; i64 a=sxt(concretize(A(0),"arith"),w),b=sxt(concretize(A(1),"arith"),w); __int128 r= id==Intrinsic::sadd_with_overflow?(__int128)a+b:id==Intrinsic::ssub_with_overflow?(__int128)a-b:(__int128)a*b; i64 tr=sxt((u64)r,w); ret=mkAgg({mkInt((u64)r,w),mkInt((__int128)tr!=r,1)}); return true; }
      case Intrinsic::fshl: case Intrinsic::fshr:{ unsigned w=d.w; u64 s=concretize(A(2),"shift")%w; Val a=A(0),b=A(1); if(s==0){ ret= id==Intrinsic::fshl?a:b; return true; } u64 l= id==Intrinsic::fshl?s:w-s; ret=binop(Instruction::Or,binop(Instruction::Shl,a,mkInt(l,w),w),binop(Instruction::LShr,b,mkInt(w-l,w),w),w); return true; }
      case Intrinsic::bswap:{ unsigned w=d.w; u64 c=concretize(A(0),"bswap"); ret=mkInt(__builtin_bswap64(c)>>(64-w),w); return true; }
      case Intrinsic::fabs: ret=doAbs(R(0)); return true;
      case Intrinsic::sqrt: ret=doSqrt(R(0)); return true;
      case Intrinsic::fmuladd: case Intrinsic::fma: ret=fop(Instruction::FAdd,fop(Instruction::FMul,R(0),R(1)),R(2)); return true;
      case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint:{ Val a=R(0); if(a.k==Val::Undef){ret=a;return true;} if(realR(a).special){ ret=a; return true; }
        if(id==Intrinsic::floor) ret=mkRealC(mpq_class(floorReal(a))); else if(id==Intrinsic::ceil){ Val n=mkReal(rNeg(realR(a))); ret=mkRealC(-mpq_class(floorReal(n))); }
        else if(id==Intrinsic::trunc){ Val z=mkRealC(0); bool neg=decideVal(fcmp(CmpInst::FCMP_OLT,a,z)); if(neg){ Val n=mkReal(rNeg(realR(a))); ret=mkRealC(-mpq_class(floorReal(n))); } else ret=mkRealC(mpq_class(floorReal(a))); }
        else { Val z=mkRealC(0); bool neg=decideVal(fcmp(CmpInst::FCMP_OLT,a,z)); Val x=neg?mkReal(rNeg(realR(a))):a; x=fop(Instruction::FAdd,x,mkRealC(mpq_class(1,2))); mpq_class r(floorReal(x)); ret=mkRealC(neg?mpq_class(-r):r); } return true; }
      case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::minimum: case Intrinsic::maximum:{ bool mn=id==Intrinsic::minnum||id==Intrinsic::minimum; Val c=fcmp(mn?CmpInst::FCMP_OLT:CmpInst::FCMP_OGT,R(0),R(1)); ret=decideVal(c)?R(0):R(1); return true; }
      case Intrinsic::copysign:{ Val m=doAbs(R(0)); bool neg=decideVal(fcmp(CmpInst::FCMP_OLT,R(1),mkRealC(0))); ret=neg?mkReal(rNeg(realR(m))):m; return true; }
      case Intrinsic::powi:{ int n=(int)sxt(concretize(A(1),"powi"),32); Val r=mkRealC(1); for(int i=0;i<std::abs(n);i++) r=fop(Instruction::FMul,r,R(0)); if(n<0) r=fop(Instruction::FDiv,mkRealC(1),r); ret=r; return true; }
      case Intrinsic::is_fpclass:{ Val a=R(0); u64 m=concretize(A(1),"mask"); auto&r=realR(a); if(r.special){ bool nan=std::isnan(r.sp); ret=mkInt(nan?(m&3)!=0:(r.sp>0?(m&0x200):(m&4))!=0,1);} else ret=mkInt((m&0x1f8)==0x1f8,1); return true; }
      case Intrinsic::sin: ret=uninterp("sin",{R(0)}); return true; case Intrinsic::cos: ret=uninterp("cos",{R(0)}); return true; case Intrinsic::exp: ret=uninterp("exp",{R(0)}); return true; case Intrinsic::log: ret=uninterp("log",{R(0)}); return true;
      case Intrinsic::pow: nm="pow"; break;
      case Intrinsic::is_constant: ret=mkInt(0,1); return true;
      case Intrinsic::objectsize: ret=mkInt(~0ull,d.w); return true;
      case Intrinsic::expect: ret=A(0); return true;
      case Intrinsic::eh_typeid_for:{ ret=mkInt(typeId(A(0).c),32); return true; }
      case Intrinsic::stacksave: ret=mkInt(0,64); return true; case Intrinsic::stackrestore: return true;
      case Intrinsic::trap: case Intrinsic::ubsantrap: violationEnd("trap","trap reached (undefined behaviour)");
      case Intrinsic::vector_reduce_fadd:{ Val r=R(0); for(auto&x:aggV(A(1))) r=fop(Instruction::FAdd,r,x); ret=r; return true; }
      case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_mul: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_xor:{ unsigned op= id==Intrinsic::vector_reduce_add?Instruction::Add:id==Intrinsic::vector_reduce_mul?Instruction::Mul:id==Intrinsic::vector_reduce_and?Instruction::And:id==Intrinsic::vector_reduce_or?Instruction::Or:Instruction::Xor; auto&v=aggV(A(0)); Val r=v[0]; for(size_t i=1;i<v.size();i++) r=binop(op,r,v[i],d.w); ret=r; return true; }
      case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::sideeffect: return true;
      default: if(nm!="pow") engineError("intrinsic "+nm);
    }
  }
  // harness interface
  if(startsWith(nm,"__sym_")){
    if(nm=="__sym_int"){ std::string n=readStr(A(0).c); u64 lo=concretize(A(1),"lo"),hi=concretize(A(2),"hi"); if(lo>hi) engineError("sym_int range"); std::string un=n+"#"+std::to_string(nameCount[n]++);
      if(lo==hi){ inputs.push_back({n,2,Z->bool_val(true),lo}); ret=mkInt(lo,64); return true; }
      unsigned w=64-__builtin_clzll(hi); z3::expr v=newVar(un,Z->bv_sort(w)); z3::expr e=w<64?z3::zext(v,64-w):v; asg->insert_or_assign(Z3_get_ast_id(*Z,v),Z->bv_val((uint64_t)lo,w));
      inputs.push_back({n,0,e,0}); if(lo>0) addPC(z3::uge(v,Z->bv_val((uint64_t)lo,w))); if(w<64&&hi!=(1ull<<w)-1) addPC(z3::ule(v,Z->bv_val((uint64_t)hi,w))); ret=mkSym(e,64); return true; }
    if(nm=="__sym_real"){ std::string n=readStr(A(0).c); std::string un=n+"#"+std::to_string(nameCount[n]++); int id=newRVar(un); auto&lo=realR(R(1)),&hi=realR(R(2)); z3::expr v=(*rvarE)[id]; inputs.push_back({n,1,v,0}); rvars[id].bounded=true; rvars[id].lo=lo.c; rvars[id].hi=hi.c; mpq_class mid=(lo.c*mpq_class(5,11)+hi.c*mpq_class(6,11)); asg->insert_or_assign(Z3_get_ast_id(*Z,v),mpqE(mid)); addPC(v>=mpqE(lo.c)); addPC(v<=mpqE(hi.c)); ret=realVarVal(id); return true; }
    if(nm=="__sym_assume"){ Val c=A(0); if(c.k==Val::Int){ if(!(c.c&1)){ S->dead++; S->instrs+=icount; icount=0; endPath(); } } else if(c.k==Val::Undef) violationEnd("uninit","assume on uninitialised"); else assumeE(symE(c)); return true; }
    if(nm=="__sym_check"){ std::string msg=readStr(A(1).c); Val c=A(0); countCheck(msg); if(c.k==Val::Int){ S->checks_trivial++; if(!(c.c&1)){ if(msgCount[msg]++<1) reportViolation("check",msg); S->instrs+=icount; icount=0; endPath(); } } else if(c.k==Val::Undef) violationEnd("uninit","checked value is uninitialised: "+msg); else doCheck(symE(c),msg); return true; }
    if(nm=="__sym_check_eq"){ std::string msg=readStr(A(2).c); countCheck(msg); Val a=R(0),b=R(1); if(a.k==Val::Undef||b.k==Val::Undef) violationEnd("uninit","checked value is uninitialised: "+msg); auto&x=realR(a);auto&y=realR(b); mpq_class tol(1,1000000);
      if(x.special||y.special){ bool ok=x.special&&y.special&&x.sp==y.sp; S->checks_trivial++; if(!ok){ reportViolation("check",msg+" (not a finite number)"); S->instrs+=icount; icount=0; endPath(); } return true; }
      RealNum df=rAdd(x,y,true);
      if(df.cst){ S->checks_trivial++; if(abs(df.c)>tol){ if(msgCount[msg]++<1) reportViolation("check",msg); S->instrs+=icount; icount=0; endPath(); } return true; }
      if(df.denOne&&relaxUnsat(df.num,tol)){ S->checks_solver++; return true; }
      { mpq_class dl; if(!df.denOne&&denBelow(df.den,dl)&&relaxUnsat(df.num,tol*dl)){ S->checks_solver++; return true; } }
      if(verbose>=2) std::cerr<<"hard equality: "<<df.num.str().substr(0,300)<<" / "<<(df.denOne?"1":df.den.str().substr(0,600))<<"\n";
      RealNum t1; t1.c=tol; RealNum t2; t2.c=-tol; Val c1=realCmp(df,t1,LE),c2=realCmp(df,t2,GE); doCheck(bvOf(c1)&&bvOf(c2),msg); return true; }
    if(nm=="__sym_reach"){ std::string n=readStr(A(0).c); unsigned h=std::hash<std::string>()(n)%MAXREACH; S->reached[h]++; return true; }
    if(nm=="__sym_pick"){ ret=mkInt(concretize(A(0),"pick"),64); return true; }
    if(nm=="__sym_is_symbolic"){ ret=mkInt(1,32); return true; }
    if(nm=="__sym_live_heap"){ u64 n=0; for(auto&o:objs) if(o.second->kind==1) n++; ret=mkInt(n,64); return true; }
    if(nm=="__sym_print"){ std::string s=readStr(A(0).c); Val v=A(1); std::cerr<<"PRINT "<<s<<" "; if(v.k==Val::Int) std::cerr<<(i64)v.c; else if(v.k==Val::Sym) std::cerr<<symE(v); else std::cerr<<"undef"; std::cerr<<"\n"; return true; }
    if(nm=="__sym_printd"){ std::string s=readStr(A(0).c); Val v=R(1); std::cerr<<"PRINT "<<s<<" "; if(v.k==Val::Real) std::cerr<<realKey(realR(v)); else std::cerr<<"undef"; std::cerr<<"\n"; return true; }
  }
  // C / C++ runtime
  if(nm=="malloc"||nm=="_Znwm"||nm=="_Znam"){ ret=mkInt(doMalloc(concretize(A(0),"allocation size")),64); return true; }
  if(nm=="_ZnwmSt11align_val_t"||nm=="_ZnamSt11align_val_t"){ ret=mkInt(doMalloc(concretize(A(0),"allocation size"),concretize(A(1),"align")),64); return true; }
  if(nm=="aligned_alloc"){ ret=mkInt(doMalloc(concretize(A(1),"allocation size"),concretize(A(0),"align")),64); return true; }
  if(nm=="calloc"){ u64 n=concretize(A(0),"calloc")*concretize(A(1),"calloc"); u64 p=doMalloc(n); Obj*o=objs[p]; std::fill(o->tag.begin(),o->tag.end(),1); ret=mkInt(p,64); return true; }
  if(nm=="free"||nm=="_ZdlPv"||nm=="_ZdaPv"||nm=="_ZdlPvm"||nm=="_ZdaPvm"||nm=="_ZdlPvSt11align_val_t"||nm=="_ZdlPvmSt11align_val_t"||nm=="_ZdaPvmSt11align_val_t"){ doFree(concretize(A(0),"free")); return true; }
  if(nm=="memcpy"||nm=="memmove"){ u64 n=concretize(A(2),"memcpy size"); if(n) copyMem(concretize(A(0),"dst"),concretize(A(1),"src"),n); ret=A(0); return true; }
  if(nm=="memset"){ u64 n=concretize(A(2),"n"); u64 a=concretize(A(0),"dst"); if(n){ Obj*o=access(a,n,"memset"); clearSide(o,a-o->base,n); u64 c=concretize(A(1),"c"); memset(&o->raw[a-o->base],c,n); memset(&o->tag[a-o->base],1,n);} ret=A(0); return true; }
  if(nm=="memcmp"||nm=="bcmp"){ u64 n=concretize(A(2),"n"); if(!n){ ret=mkInt(0,32); return true; } u64 a=concretize(A(0),"p"),b=concretize(A(1),"p"); Obj*o=access(a,n,"memcmp"),*q=access(b,n,"memcmp");
    std::vector<Val> x,y; bool sym=false; for(u64 i=0;i<n;i++){ x.push_back(bytesToVal(o,a+i-o->base,1,8)); y.push_back(bytesToVal(q,b+i-q->base,1,8)); if(x[i].k==Val::Undef||y[i].k==Val::Undef) violationEnd("uninit","memcmp of uninitialised bytes"); if(x[i].k==Val::Sym||y[i].k==Val::Sym) sym=true; }
    if(!sym){ i64 r=0; for(u64 i=0;i<n&&!r;i++) r=x[i].c<y[i].c?-1:x[i].c>y[i].c?1:0; ret=mkInt(r,32); return true; }
    z3::expr ex=bvOf(x[0]),ey=bvOf(y[0]); for(u64 i=1;i<n;i++){ ex=z3::concat(ex,bvOf(x[i])); ey=z3::concat(ey,bvOf(y[i])); }
    z3::expr eq(*Z); if(nm=="bcmp"||n>64){ } eq=(ex==ey).simplify(); z3::expr r=z3::ite(eq,Z->bv_val(0,32),nm=="bcmp"?Z->bv_val(1,32):z3::ite(z3::ult(ex,ey),Z->bv_val(-1,32),Z->bv_val(1,32))); ret=mkSym(r.simplify(),32); return true; }
  if(nm=="strlen"){ ret=mkInt(readStr(A(0).c).size(),64); return true; }
  if(nm=="strcmp"){ ret=mkInt(readStr(A(0).c).compare(readStr(A(1).c)),32); return true; }
  if(nm=="__assert_fail"){ violationEnd("assert","assertion failed: "+readStr(A(0).c)+" at "+readStr(A(1).c)+":"+std::to_string(A(2).c)); }
  if(nm=="_ZSt21__glibcxx_assert_failPKciS0_S0_"){ violationEnd("assert","libstdc++ assertion failed in "+readStr(A(2).c)+": "+readStr(A(3).c)); }
  if(nm=="abort"||nm=="_ZSt9terminatev"||nm=="__clang_call_terminate"||nm=="exit"){ violationEnd("abort",nm+" called"); }
  if(nm=="__cxa_pure_virtual") violationEnd("abort","pure virtual call");
  if(startsWith(nm,"_ZSt")&&nm.find("__throw_")!=std::string::npos){ violationEnd("exception","standard library exception: "+demangle(nm)); }
  if(nm=="__cxa_throw_bad_array_new_length") violationEnd("exception","bad array length");
  if(nm=="__cxa_allocate_exception"){ u64 p=doMalloc(concretize(A(0),"size")); objs[p]->kind=3; ret=mkInt(p,64); return true; }
  if(nm=="__cxa_free_exception"){ return true; }
  if(nm=="__cxa_throw"){ u64 p=A(0).c; excs[p]={p,A(1).c,A(2).c,0}; unwind(p); threw=true; return true; }
  if(nm=="__cxa_rethrow"){ if(caught.empty()) violationEnd("abort","rethrow without exception"); u64 p=caught.back(); unwind(p); threw=true; return true; }
  if(nm=="__cxa_begin_catch"){ caught.push_back(A(0).c); ret=A(0); return true; }
  if(nm=="__cxa_get_exception_ptr"){ ret=A(0); return true; }
  if(nm=="__cxa_end_catch"){ if(!caught.empty()) caught.pop_back(); return true; }
  if(nm=="__cxa_atexit"){ ret=mkInt(0,32); return true; }
  if(nm=="__cxa_guard_acquire"){ Obj*o=access(A(0).c,1,"guard"); u64 off=A(0).c-o->base; bool done=o->raw[off]; o->raw[off]=1;o->tag[off]=1; ret=mkInt(!done,32); return true; }
  if(nm=="__cxa_guard_release"||nm=="__cxa_guard_abort") return true;
  if(nm=="__dynamic_cast"){ // (src, srcType, dstType, hint): exact or base match on the dynamic type, single inheritance
    u64 src=concretize(A(0),"dynamic_cast"); if(!src){ ret=mkInt(0,64); return true; }
    Obj*o=access(src,8,"vptr"); Val vp=loadVal(o,src-o->base,PointerType::getUnqual(M->getContext())); u64 vt=concretize(vp,"vptr"); Obj*vo=access(vt-16,16,"vtable"); Val otop=loadVal(vo,vt-16-vo->base,Type::getInt64Ty(M->getContext())); Val ti=loadVal(vo,vt-8-vo->base,PointerType::getUnqual(M->getContext())); bool ok=isBaseOf(A(2).c,ti.c); ret=mkInt(ok?src+otop.c:0,64); return true; }
  if(nm=="sqrt"||nm=="sqrtf"||nm=="sqrtl"){ ret=doSqrt(R(0)); return true; }
  if(nm=="sin"||nm=="cos"||nm=="exp"||nm=="log"||nm=="tan"||nm=="atan"||nm=="acos"||nm=="asin"||nm=="sinh"||nm=="cosh"){ ret=uninterp(nm,{R(0)}); return true; }
  if(nm=="fabs"){ ret=doAbs(R(0)); return true; }
  if(nm=="pow"||nm=="powf"){ auto&e=realR(R(1)); if(e.cst&&!e.special&&e.c.get_den()==1&&abs(e.c)<=64){ long n=e.c.get_num().get_si(); Val r=mkRealC(1); for(long i=0;i<std::labs(n);i++) r=fop(Instruction::FMul,r,R(0)); if(n<0) r=fop(Instruction::FDiv,mkRealC(1),r); ret=r; return true; } if(e.cst&&!e.special&&e.c==mpq_class(1,2)){ ret=doSqrt(R(0)); return true; }
    if(e.cst&&!e.special&&R(0).k!=Val::Undef&&!realR(R(0)).special&&realR(R(0)).cst&&realR(R(0)).c>0){ ret=mkRealD(std::pow(realR(R(0)).c.get_d(),e.c.get_d())); return true; }
    if(e.cst&&!e.special&&e.c>0&&R(0).k!=Val::Undef&&!realR(R(0)).special&&!realR(R(0)).cst){ if(decide(relE(realR(R(0)),LT))){ ret=mkRealD(NAN); return true; } if(decide(relE(realR(R(0)),EQ))){ ret=mkRealC(0); return true; }
      std::string key="powpos|"+realKey(realR(R(0)))+"|"+realKey(e); auto it=funcVars.find(key); if(it!=funcVars.end()){ ret=realVarVal(it->second); return true; } int id=newRVar("pow!"+std::to_string(rvars.size())); funcVars[key]=id; constrainNew((*rvarE)[id]>Z->real_val(0)); ret=realVarVal(id); return true; }
    ret=uninterp("pow",{R(0),R(1)}); return true; }
  if(nm=="fmod"){ ret=fop(Instruction::FRem,R(0),R(1)); return true; }
  if(nm=="hypot"){ ret=doSqrt(fop(Instruction::FAdd,fop(Instruction::FMul,R(0),R(0)),fop(Instruction::FMul,R(1),R(1)))); return true; }
  if(nm=="puts"||nm=="printf"||nm=="putchar"||nm=="fprintf"||nm=="fputs"||nm=="fwrite"||nm=="fflush"){ ret=mkInt(0,32); return true; }
  if(nm=="pthread_mutex_lock"||nm=="pthread_mutex_unlock"||nm=="pthread_once"||nm=="__pthread_key_create"){ ret=mkInt(0,32); return true; }
  if(nm=="_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm"||nm=="_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm") return false;
  return false;
}

// ---------------------------------------------------------------- calls
static void pushFrame(Function*F,std::vector<Val> args){
  if(stk.size()>600) violationEnd("recursion","call depth exceeds 600");
  DFunc*D=decode(F); stk.emplace_back(); Frame&f=stk.back(); f.df=D; f.bb=0; f.pc=0; f.prev=nullptr; f.regs.resize(D->nregs); unsigned n=F->arg_size(); for(unsigned i=0;i<args.size();i++){ if(i<n) f.regs[i]=std::move(args[i]); else f.varargs.push_back(std::move(args[i])); }
  auto&B=D->blocks[0]; if(!B.marked){ B.marked=true; for(int s:B.subs) S->sub[s]=1; }
}
static void copyByval(const CallBase*CB,std::vector<Val>&args){ for(unsigned i=0;i<args.size();i++) if(CB->isByValArgument(i)){ Type*T=CB->getParamByValType(i); u64 n=DL->getTypeAllocSize(T); Obj*o=newObj(n,2,16); u64 s=concretize(args[i],"byval"); copyMem(o->base,s,n); args[i]=mkInt(o->base,64); } }
static Val elementwise(const Val&a,const std::function<Val(const Val&)>&f){ if(a.k==Val::Agg){ std::vector<Val> v; for(auto&x:aggV(a)) v.push_back(f(x)); return mkAgg(v);} return f(a); }
static void run(size_t base){
  while(stk.size()>base){
    Frame&f=stk.back(); DBlock&B=f.df->blocks[f.bb]; const DInst&d=B.insts[f.pc++]; curI=d.I; icount++;
    if((icount&0xfffff)==0) { S->instrs+=icount; icount=0; checkStop(); }
    auto A=[&](int i)->const Val&{ return get(f,d.ops[i]); };
    switch(d.op){
      case Instruction::Ret:{ Val r; bool has=!d.ops.empty(); if(has) r=A(0); popFrame(); if(stk.size()>base||base==0){ if(stk.empty()) return; } if(stk.size()==base&&base>0){ return; }
        { Frame&c=stk.back(); const DInst&cd=c.df->blocks[c.bb].insts[c.pc-1]; if(has&&cd.dst>=0) c.regs[cd.dst]=std::move(r); if(auto*IV=dyn_cast<InvokeInst>(cd.I)){ c.prev=IV->getParent(); enterBlock(c,IV->getNormalDest()); } } break; }
      case Instruction::Br:{ auto*BI=cast<BranchInst>(d.I); const BasicBlock*to; if(BI->isUnconditional()) to=BI->getSuccessor(0); else to=decideVal(A(0))?BI->getSuccessor(0):BI->getSuccessor(1); f.prev=BI->getParent(); enterBlock(f,to); break; }
      case Instruction::Switch:{ auto*SI=cast<SwitchInst>(d.I); Val c=A(0); const BasicBlock*to=nullptr; if(c.k==Val::Undef) violationEnd("uninit","switch on uninitialised value"); if(c.k==Val::Int){ to=SI->getDefaultDest(); for(auto&cs:SI->cases()) if(cs.getCaseValue()->getZExtValue()==c.c){ to=cs.getCaseSuccessor(); break; } } else { to=SI->getDefaultDest(); for(auto&cs:SI->cases()) if(decide(symE(c)==Z->bv_val((uint64_t)cs.getCaseValue()->getZExtValue(),c.w))){ to=cs.getCaseSuccessor(); break; } } f.prev=SI->getParent(); enterBlock(f,to); break; }
      case Instruction::Unreachable: violationEnd("unreachable","unreachable code reached (undefined behaviour)");
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor:
        if(A(0).k==Val::Agg){ std::vector<Val> v; unsigned w=d.I->getType()->getScalarSizeInBits(); for(size_t i=0;i<aggV(A(0)).size();i++) v.push_back(binop(d.op,aggV(A(0))[i],aggV(A(1))[i],w)); f.regs[d.dst]=mkAgg(v); } else f.regs[d.dst]=binop(d.op,A(0),A(1),d.w); break;
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:{ Val r=fop(d.op,A(0),A(1)); f.regs[d.dst]=std::move(r); break; }
      case Instruction::FNeg: f.regs[d.dst]=elementwise(A(0),[](const Val&a){ return a.k==Val::Undef?a:mkReal(rNeg(realR(a))); }); break;
      case Instruction::ICmp:{ auto*C=cast<ICmpInst>(d.I); if(A(0).k==Val::Agg){ std::vector<Val> v; unsigned w=C->getOperand(0)->getType()->getScalarType()->isPointerTy()?64:C->getOperand(0)->getType()->getScalarSizeInBits(); for(size_t i=0;i<aggV(A(0)).size();i++) v.push_back(icmp(C->getPredicate(),aggV(A(0))[i],aggV(A(1))[i],w)); f.regs[d.dst]=mkAgg(v);} else { Type*T=C->getOperand(0)->getType(); unsigned w=T->isPointerTy()?64:T->getIntegerBitWidth(); f.regs[d.dst]=icmp(C->getPredicate(),A(0),A(1),w);} break; }
      case Instruction::FCmp:{ auto*C=cast<FCmpInst>(d.I); if(A(0).k==Val::Agg){ std::vector<Val> v; for(size_t i=0;i<aggV(A(0)).size();i++) v.push_back(fcmp(C->getPredicate(),aggV(A(0))[i],aggV(A(1))[i])); f.regs[d.dst]=mkAgg(v);} else f.regs[d.dst]=fcmp(C->getPredicate(),A(0),A(1)); break; }
      case Instruction::Alloca:{ auto*AI=cast<AllocaInst>(d.I); u64 n=concretize(A(0),"alloca")*DL->getTypeAllocSize(AI->getAllocatedType()); Obj*o=newObj(n,2,AI->getAlign().value()); f.allocas.push_back(o->base); f.regs[d.dst]=mkInt(o->base,64); break; }
      case Instruction::Load:{ u64 a=concretize(A(0),"address"); Type*T=d.I->getType(); u64 n=DL->getTypeStoreSize(T); Obj*o=access(a,n,"load"); f.regs[d.dst]=loadVal(o,a-o->base,T); break; }
      case Instruction::Store:{ u64 a=concretize(A(1),"address"); Type*T=d.I->getOperand(0)->getType(); u64 n=DL->getTypeStoreSize(T); Obj*o=access(a,n,"store"); storeVal(o,a-o->base,A(0),T); break; }
      case Instruction::GetElementPtr:{ Val b=A(0); if(b.k==Val::Undef){ f.regs[d.dst]=b; break; } if(b.k==Val::Agg) engineError("vector gep"); if(d.off) b=binop(Instruction::Add,b,mkInt(d.off,64),64); for(auto&g:d.gep){ Val ix=get(f,g.first); if(ix.k==Val::Int) ix=mkInt(sxt(ix.c,ix.w),64); else if(ix.k==Val::Sym&&ix.w<64) ix=mkSym(ix.w==1?z3::ite(symE(ix),Z->bv_val((uint64_t)~0ull,64),Z->bv_val(0,64)):z3::sext(symE(ix),64-ix.w),64); b=binop(Instruction::Add,b,binop(Instruction::Mul,ix,mkInt(g.second,64),64),64); } f.regs[d.dst]=b; break; }
      case Instruction::PHI: engineError("phi");
      case Instruction::Select:{ Val c=A(0); if(c.k==Val::Agg){ std::vector<Val> v; for(size_t i=0;i<aggV(c).size();i++) v.push_back(decideVal(aggV(c)[i])?aggV(A(1))[i]:aggV(A(2))[i]); f.regs[d.dst]=mkAgg(v); break; }
        if(c.k==Val::Int){ Val r=c.c?A(1):A(2); f.regs[d.dst]=r; break; }
        if(c.k==Val::Undef){ f.regs[d.dst]=undefVal(d.I->getType()); break; }
        const Val&t=A(1),&e=A(2); bool ints=(t.k==Val::Int||t.k==Val::Sym)&&(e.k==Val::Int||e.k==Val::Sym);
        if(ints&&!d.I->getType()->isPointerTy()&&!d.I->getType()->isFloatingPointTy()) f.regs[d.dst]=mkSym(z3::ite(symE(c),bvOf(t),bvOf(e)).simplify(),d.w); else { bool b=decideVal(c); Val r=b?A(1):A(2); f.regs[d.dst]=r; } break; }
      case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc:{ unsigned w=d.I->getType()->getScalarSizeInBits(); unsigned op=d.op; f.regs[d.dst]=elementwise(A(0),[&](const Val&a0){ Val a=a0; if(a.k==Val::Undef) return mkUndef(w); if(a.k==Val::Real) a=mkInt(concretize(a,"int"),64);
          if(a.k==Val::Int&&w<=64) return op==Instruction::SExt?mkInt(sxt(a.c,a.w),w):mkInt(a.c,w);
          z3::expr e=bvOf(a); 
          if(op==Instruction::ZExt) return mkSym(a.w==1?z3::ite(e,Z->bv_val(1,w),Z->bv_val(0,w)):z3::zext(e,w-a.w).simplify(),w);
          if(op==Instruction::SExt){ if(a.w==1) return mkSym(z3::ite(e,~Z->bv_val(0,w),Z->bv_val(0,w)).simplify(),w); return mkSym(z3::sext(e,w-a.w).simplify(),w); }
          if(w==1) return mkSym((e.extract(0,0)==Z->bv_val(1,1)).simplify(),1);
          return mkSym(e.extract(w-1,0).simplify(),w); }); break; }
      case Instruction::FPTrunc: case Instruction::FPExt: f.regs[d.dst]=A(0); break;
      case Instruction::UIToFP: case Instruction::SIToFP:{ bool sg=d.op==Instruction::SIToFP; f.regs[d.dst]=elementwise(A(0),[&](const Val&a){ if(a.k==Val::Undef) return mkUndef(64); u64 c=concretize(a,"int to float"); mpz_class z; if(sg){ i64 s=sxt(c,a.w); z=mpz_class((long)s);} else z=mpz_class((unsigned long)c); return mkRealC(mpq_class(z)); }); break; }
      case Instruction::FPToUI: case Instruction::FPToSI:{ Val a=A(0); unsigned w=d.w; if(a.k==Val::Undef){ f.regs[d.dst]=mkUndef(w); break; } if(a.k==Val::Agg) engineError("vector fptoi"); auto&r=realR(a); if(r.special){ f.regs[d.dst]=mkUndef(w); break; } bool neg=decideVal(fcmp(CmpInst::FCMP_OLT,a,mkRealC(0))); mpz_class k; if(neg){ Val n=mkReal(rNeg(realR(a))); k=-floorReal(n);} else k=floorReal(a); f.regs[d.dst]=mkInt((u64)k.get_si(),w); break; }
      case Instruction::PtrToInt: case Instruction::IntToPtr:{ Val a=A(0); if(a.k==Val::Int) a=mkInt(a.c,d.w); f.regs[d.dst]=a; break; }
      case Instruction::BitCast: case Instruction::AddrSpaceCast:{ Type*S1=d.I->getOperand(0)->getType(),*T=d.I->getType(); Val a=A(0); if(T->isFloatingPointTy()&&S1->isIntegerTy()) a=asReal(a,S1->getIntegerBitWidth()); else if(S1->isVectorTy()!=T->isVectorTy()||(S1->isVectorTy()&&S1!=T)){ Obj*o=newObj(64,2); storeVal(o,0,a,S1); a=loadVal(o,0,T); if(lastObj==o) lastObj=nullptr; objs.erase(o->base); delete o; } f.regs[d.dst]=a; break; }
      case Instruction::Freeze:{ Val a=A(0); if(a.k==Val::Undef) a=mkInt(0,d.w?d.w:64); f.regs[d.dst]=a; break; }
      case Instruction::ExtractValue:{ auto*E=cast<ExtractValueInst>(d.I); Val a=A(0); for(unsigned i:E->indices()){ if(a.k!=Val::Agg){ a=Val(); break; } Val t=aggV(a)[i]; a=t; } f.regs[d.dst]=a; break; }
      case Instruction::InsertValue:{ auto*E=cast<InsertValueInst>(d.I); std::function<Val(const Val&,ArrayRef<unsigned>)> ins=[&](const Val&a,ArrayRef<unsigned> ix)->Val{ if(ix.empty()) return A(1); std::vector<Val> v=aggV(a); v[ix[0]]=ins(v[ix[0]],ix.drop_front()); return mkAgg(v); }; Val r=ins(A(0),E->getIndices()); f.regs[d.dst]=r; break; }
      case Instruction::ExtractElement:{ Val a=A(0); u64 i=concretize(A(1),"index"); Val r=aggV(a)[i]; f.regs[d.dst]=r; break; }
      case Instruction::InsertElement:{ std::vector<Val> v=aggV(A(0)); u64 i=concretize(A(2),"index"); v[i]=A(1); f.regs[d.dst]=mkAgg(v); break; }
      case Instruction::ShuffleVector:{ auto*SV=cast<ShuffleVectorInst>(d.I); auto&a=aggV(A(0)); auto&b=aggV(A(1)); std::vector<Val> v; for(int m:SV->getShuffleMask()) v.push_back(m<0?Val():(size_t)m<a.size()?a[m]:b[m-a.size()]); f.regs[d.dst]=mkAgg(v); break; }
      case Instruction::LandingPad: engineError("landingpad fallthrough");
      case Instruction::Resume:{ u64 ex=aggV(A(0))[0].c; if(stk.size()==1) violationEnd("exception","uncaught exception "+tiName(excs[ex].ti)); popFrame(); unwind(ex); break; }
      case Instruction::AtomicRMW:{ auto*RM=cast<AtomicRMWInst>(d.I); u64 a=concretize(A(0),"address"); Type*T=d.I->getType(); Obj*o=access(a,DL->getTypeStoreSize(T),"atomic"); Val old=loadVal(o,a-o->base,T),nv; switch(RM->getOperation()){case AtomicRMWInst::Add:nv=binop(Instruction::Add,old,A(1),d.w);break;case AtomicRMWInst::Sub:nv=binop(Instruction::Sub,old,A(1),d.w);break;case AtomicRMWInst::Xchg:nv=A(1);break;default:engineError("atomicrmw");} storeVal(o,a-o->base,nv,T); f.regs[d.dst]=old; break; }
      case Instruction::AtomicCmpXchg:{ u64 a=concretize(A(0),"address"); Type*T=d.I->getOperand(1)->getType(); Obj*o=access(a,DL->getTypeStoreSize(T),"atomic"); Val old=loadVal(o,a-o->base,T); bool eq=decideVal(icmp(CmpInst::ICMP_EQ,old,A(1),T->isPointerTy()?64:T->getIntegerBitWidth())); if(eq) storeVal(o,a-o->base,A(2),T); f.regs[d.dst]=mkAgg({old,mkInt(eq,1)}); break; }
      case Instruction::Fence: break;
      case Instruction::VAArg: engineError("va_arg");
      case Instruction::Call: case Instruction::Invoke:{
        auto*CB=cast<CallBase>(d.I); Function*F=nullptr; unsigned na=CB->arg_size();
        if(d.extra){ Value*cv=CB->getCalledOperand()->stripPointerCasts(); if(auto*fa=dyn_cast<GlobalAlias>(cv)) cv=fa->getAliaseeObject(); F=cast<Function>(cv); }
        else { if(CB->isInlineAsm()) break; u64 a=concretize(A(na),"function pointer"); auto it=faddr.find(a); if(it==faddr.end()) violationEnd("memory",a<4096?"call through null function pointer":"call through invalid function pointer"); F=it->second; }
        if(F->isDeclaration()||F->getName().starts_with("__sym_")||F->getName()=="__clang_call_terminate"){
          Val ret; bool threw; if(!builtin(f,d,CB,F,ret,threw)){ std::string nm=F->getName().str();
            // iostream and locale: no-ops returning the first argument
            if(nm.find("basic_ostream")!=std::string::npos||startsWith(nm,"_ZNSo")||startsWith(nm,"_ZStls")||nm.find("ios_base")!=std::string::npos||startsWith(nm,"_ZNSolsE")||nm=="_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l"){ ret=na?A(0):Val(); }
            else engineError("call to unmodelled external function "+demangle(nm)+" ["+nm+"]"); }
          if(threw) break;
          if(d.dst>=0) f.regs[d.dst]=std::move(ret);
          if(auto*IV=dyn_cast<InvokeInst>(d.I)){ f.prev=IV->getParent(); enterBlock(f,IV->getNormalDest()); }
          break; }
        std::vector<Val> args; for(unsigned i=0;i<na;i++) args.push_back(d.ops[i]==INT_MIN?Val():A(i)); copyByval(CB,args); pushFrame(F,std::move(args)); break; }
      default:{ engineError(std::string("instruction ")+d.I->getOpcodeName()); }
    }
  }
}
static void setupGlobals(){
  u64 fa=0x10000000; for(auto&F:*M){ gaddr[&F]=fa; faddr[fa]=&F; fa+=16; }
  for(auto&G:M->globals()){ if(G.getName().starts_with("llvm.")) continue; u64 n=G.getValueType()->isSized()?(u64)DL->getTypeAllocSize(G.getValueType()):64; if(G.isDeclaration()) n=std::max<u64>(n,512); Obj*o=newObj(n,0,64); gaddr[&G]=o->base; if(G.isDeclaration()){ std::fill(o->tag.begin(),o->tag.end(),1); } }
  for(auto&G:M->globals()){ if(G.getName().starts_with("llvm.")||!G.hasInitializer()) continue; Obj*o=objs[gaddr[&G]]; if(isa<UndefValue>(G.getInitializer())) continue; if(isa<ConstantAggregateZero>(G.getInitializer())){ std::fill(o->tag.begin(),o->tag.end(),1); continue; } std::fill(o->tag.begin(),o->tag.end(),1); storeVal(o,0,evalConst(G.getInitializer()),G.getValueType()); }
}
int main(int argc,char**argv){
  std::string bc; double tlim=600; int jobs=8; std::string entry="harness";
  for(int i=1;i<argc;i++){ std::string a=argv[i]; if(a=="--out") outdir=argv[++i]; else if(a=="--time") tlim=atof(argv[++i]); else if(a=="--jobs") jobs=atoi(argv[++i]); else if(a=="--entry") entry=argv[++i]; else if(a=="--rlimit") rlimit=strtoull(argv[++i],nullptr,10); else if(a=="-v") verbose++; else bc=a; }
  S=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); S->tokens=jobs-1; S->procs=1; double t0=nowS(); S->deadline=t0+tlim;
  guardProcess(); mkdir(outdir.c_str(),0777);
  LLVMContext C; SMDiagnostic err; M=parseIRFile(bc,err,C); if(!M){ err.print("symex",errs()); return 3; } DL=&M->getDataLayout();
  { DebugInfoFinder fi; fi.processModule(*M); for(auto*sp:fi.subprograms()){ if((int)subList.size()>=MAXFN) break; subIdx[sp]=subList.size(); subList.push_back(sp); } }
  pid_t p=fork();
  if(p==0){ guardProcess();
    setpgid(0,0);
    Z3_global_param_set("timeout","4294967295");
    z3::context zc; Z=&zc; rvarE=new std::vector<z3::expr>; asg=new std::map<unsigned,z3::expr>; varById=new std::map<unsigned,z3::expr>;
    try{
      setupGlobals();
      if(auto*gc=M->getNamedGlobal("llvm.global_ctors")){ auto*I=dyn_cast<ConstantArray>(gc->getInitializer()); if(I) for(auto&o:I->operands()){ auto*st=cast<ConstantStruct>(o.get()); auto*F=dyn_cast<Function>(st->getOperand(1)->stripPointerCasts()); if(F&&!F->isDeclaration()){ pushFrame(F,{}); run(0);} } }
      Function*E=M->getFunction(entry); if(!E||E->isDeclaration()) engineError("entry not found: "+entry);
      pushFrame(E,{}); run(0);
      curI=nullptr; S->paths++; S->instrs+=icount; icount=0;
    } catch(z3::exception&e){ engineError(std::string("z3: ")+e.msg()); } catch(std::exception&e){ engineError(std::string("std: ")+e.what()); }
    endPath();
  }
  int st; waitpid(p,&st,0); if(WIFSIGNALED(st)){ S->errors++; if(!S->errmsg[0]) snprintf(S->errmsg,sizeof S->errmsg,"root worker killed by signal %d",WTERMSIG(st)); }
  kill(-p,SIGKILL);
  double wall=nowS()-t0; int nreach=0; for(auto&r:S->reached) nreach+=r>0; int nmsg=0; for(auto&r:S->chkcount) nmsg+=r>0;
  std::ofstream f(outdir+"/stats.json"); std::set<std::string> fns; for(size_t i=0;i<subList.size();i++) if(S->sub[i]){ auto*sp=subList[i]; std::string fn=sp->getFilename().str(); auto pos=fn.find("dune/functions/"); if(pos!=std::string::npos) fns.insert(fn.substr(pos)+": "+sp->getName().str()); }
  f<<"{\"paths\":"<<S->paths<<",\"infeasible\":"<<S->dead<<",\"instructions\":"<<S->instrs<<",\"forks\":"<<S->forks<<",\"queries\":"<<S->queries<<",\"sat\":"<<S->qsat<<",\"unsat\":"<<S->qunsat<<",\"unknown\":"<<S->qunknown<<",\"solver_s\":"<<S->solver_ns*1e-9<<",\"checks\":"<<S->checks<<",\"checks_concrete\":"<<S->checks_trivial<<",\"checks_solver\":"<<S->checks_solver<<",\"distinct_checks\":"<<nmsg<<",\"violations\":"<<S->violations<<",\"errors\":"<<S->errors<<",\"error\":\""<<jsonEsc(S->errmsg)<<"\",\"reached\":"<<nreach<<",\"maxdepth\":"<<S->maxdepth<<",\"wall_s\":"<<wall<<",\"functions\":["; bool first=true; for(auto&n:fns){ f<<(first?"":",")<<"\""<<jsonEsc(n)<<"\""; first=false; } f<<"]}\n"; f.close();
  if(verbose) std::cerr<<"paths "<<S->paths<<" dead "<<S->dead<<" instr "<<S->instrs<<" queries "<<S->queries<<" solver "<<S->solver_ns*1e-9<<"s checks "<<S->checks<<" viol "<<S->violations<<" err "<<S->errors<<" "<<S->errmsg<<" wall "<<wall<<"\n";
  fflush(nullptr); std::cerr.flush(); _exit(S->violations?1:S->errors?2:0);  // static destructors would destroy the module after its context
}
