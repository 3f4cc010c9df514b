// Exact real arithmetic for the symbolic executor: rational functions over named real variables.
// Algebraic variables (introduced by sqrt) carry a rewrite rule s^2 -> polynomial.
#pragma once
#include <gmpxx.h>
#include <cmath>
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <cstdio>
#include <cstring>

struct Poly;
struct RVar { std::string name; std::shared_ptr<Poly> sq; bool bounded=false; mpq_class lo,hi; };
extern std::vector<RVar> rvars;

using Mono = std::vector<uint32_t>;   // sorted (var<<8 | exp)
struct MonoLess { bool operator()(const Mono&a,const Mono&b)const{ return a<b; } };

struct Poly {
  std::map<Mono,mpq_class> t;
  Poly(){}
  Poly(const mpq_class&c){ if(c!=0) t[Mono{}]=c; }
  static Poly var(uint32_t v){ Poly p; p.t[Mono{(v<<8)|1}]=1; return p; }
  bool isZero()const{ return t.empty(); }
  bool isConst()const{ return t.empty() || (t.size()==1 && t.begin()->first.empty()); }
  mpq_class constant()const{ return t.empty()?mpq_class(0):t.begin()->second; }
  bool operator==(const Poly&o)const{ return t==o.t; }
  void addTerm(const Mono&m,const mpq_class&c){
    if(c==0) return;
    auto [it,ins]=t.emplace(m,c);
    if(!ins){ it->second+=c; if(it->second==0) t.erase(it); }
  }
  Poly operator+(const Poly&o)const{ Poly r=*this; for(auto&[m,c]:o.t) r.addTerm(m,c); return r; }
  Poly operator-(const Poly&o)const{ Poly r=*this; for(auto&[m,c]:o.t) r.addTerm(m,-c); return r; }
  Poly operator-()const{ Poly r; for(auto&[m,c]:t) r.t[m]=-c; return r; }
  Poly scaled(const mpq_class&s)const{ Poly r; if(s==0) return r; for(auto&[m,c]:t) r.t[m]=c*s; return r; }
  static Mono mulMono(const Mono&a,const Mono&b,bool&red){
    Mono r; r.reserve(a.size()+b.size()); size_t i=0,j=0;
    while(i<a.size()||j<b.size()){
      if(j==b.size()||(i<a.size()&&(a[i]>>8)<(b[j]>>8))) r.push_back(a[i++]);
      else if(i==a.size()||(b[j]>>8)<(a[i]>>8)) r.push_back(b[j++]);
      else { uint32_t v=a[i]>>8,e=(a[i]&255)+(b[j]&255); r.push_back((v<<8)|e);
             if(e>=2&&rvars[v].sq) red=true; i++;j++; }
    }
    return r;
  }
  Poly operator*(const Poly&o)const{
    if(isConst()) return o.scaled(constant());
    if(o.isConst()) return scaled(o.constant());
    Poly r; Poly red;
    for(auto&[m1,c1]:t) for(auto&[m2,c2]:o.t){
      bool rd=false; Mono m=mulMono(m1,m2,rd);
      if(!rd) r.addTerm(m,c1*c2);
      else {
        // reduce s^2 -> sq
        Mono rest; Poly f(mpq_class(c1*c2));
        for(uint32_t x:m){ uint32_t v=x>>8,e=x&255;
          if(e>=2&&rvars[v].sq){ for(uint32_t k=0;k<e/2;k++) f=f*(*rvars[v].sq); if(e&1) rest.push_back((v<<8)|1); }
          else rest.push_back(x);
        }
        Poly rp; rp.t[rest]=1;
        red=red+f*rp;
      }
    }
    if(!red.isZero()) r=r+red;
    return r;
  }
  // content-normalised: returns scaling s such that *this*s has leading coeff 1
  mpq_class lead()const{ return t.empty()?mpq_class(0):t.rbegin()->second; }
  // exact division attempt by polynomial d (multivariate, lex order); returns true when remainder is zero
  bool divExact(const Poly&d,Poly&q)const;
  int degree()const{ int r=0; for(auto&[m,c]:t){int s=0; for(auto x:m) s+=x&255; if(s>r) r=s;} return r; }
  std::string str()const;
};

struct RealNum { // rational function or special
  bool special=false; double sp=0;
  bool cst=true; mpq_class c;     // constant value when cst
  Poly num,den;                   // otherwise num/den, den non-constant unless denOne
  bool denOne=true;
};

mpq_class snapDouble(double d);
bool toDoubleExact(const mpq_class&q,double&d);
