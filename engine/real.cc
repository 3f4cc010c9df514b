#include "real.hh"
std::vector<RVar> rvars;

std::string Poly::str()const{
  if(t.empty()) return "0";
  std::string s;
  for(auto&[m,c]:t){
    if(!s.empty()) s+=" + ";
    s+=c.get_str();
    for(auto x:m){ s+="*"+rvars[x>>8].name; if((x&255)>1) s+="^"+std::to_string(x&255); }
  }
  return s;
}

static bool monoDiv(const Mono&a,const Mono&b,Mono&q){
  q.clear(); size_t i=0;
  for(size_t j=0;j<b.size();j++){
    while(i<a.size()&&(a[i]>>8)<(b[j]>>8)) q.push_back(a[i++]);
    if(i==a.size()||(a[i]>>8)!=(b[j]>>8)||(a[i]&255)<(b[j]&255)) return false;
    if((a[i]&255)>(b[j]&255)) q.push_back(((a[i]>>8)<<8)|((a[i]&255)-(b[j]&255)));
    i++;
  }
  while(i<a.size()) q.push_back(a[i++]);
  return true;
}
// compare monomials in a true monomial order (graded by var exponent lex): expand compare
static bool lexLess(const Mono&a,const Mono&b){
  size_t i=0,j=0;
  while(i<a.size()&&j<b.size()){
    uint32_t va=a[i]>>8,vb=b[j]>>8;
    if(va!=vb) return va>vb;          // smaller var index present => larger
    uint32_t ea=a[i]&255,eb=b[j]&255;
    if(ea!=eb) return ea<eb;
    i++;j++;
  }
  if(i==a.size()&&j<b.size()) return true;
  return false;
}
static std::map<Mono,mpq_class>::const_iterator leadTerm(const Poly&p){
  auto best=p.t.begin();
  for(auto it=p.t.begin();it!=p.t.end();++it) if(lexLess(best->first,it->first)) best=it;
  return best;
}
bool Poly::divExact(const Poly&d,Poly&q)const{
  q=Poly(); if(d.isZero()) return false;
  for(auto&[m,c]:d.t) for(auto x:m) if(rvars[x>>8].sq) return false;
  Poly r=*this; auto ld=leadTerm(d); int guard=0;
  if(d.degree()>degree()) return isZero();
  while(!r.isZero()){
    if(++guard>2000) return false;
    auto lr=leadTerm(r); Mono m;
    if(!monoDiv(lr->first,ld->first,m)) return false;
    mpq_class c=lr->second/ld->second;
    q.addTerm(m,c);
    Poly s; 
    for(auto&[dm,dc]:d.t){ bool rd=false; Mono mm=mulMono(dm,m,rd); s.addTerm(mm,dc*c);}    
    r=r-s;
  }
  return true;
}

static bool fromDec(double d,mpq_class&out,int digits){
  char buf[64]; snprintf(buf,sizeof buf,"%.*e",digits-1,d);
  if(strtod(buf,nullptr)!=d) return false;
  // parse mantissa/exponent
  std::string s=buf; size_t e=s.find('e'); int ex=atoi(s.c_str()+e+1); std::string m=s.substr(0,e);
  bool neg=false; if(m[0]=='-'){neg=true;m=m.substr(1);} 
  std::string dg; int frac=0; bool pt=false;
  for(char ch:m){ if(ch=='.'){pt=true;continue;} dg+=ch; if(pt) frac++; }
  mpz_class n(dg,10); ex-=frac; mpz_class p; mpz_ui_pow_ui(p.get_mpz_t(),10,std::abs(ex));
  out = ex>=0 ? mpq_class(n*p) : mpq_class(n,p); out.canonicalize(); if(neg) out=-out;
  return true;
}
mpq_class snapDouble(double d){
  mpq_class ex(d);
  if(mpz_sizeinbase(ex.get_den_mpz_t(),2)<=24) return ex;   // short dyadic: exact
  // short decimals
  mpq_class q;
  for(int n=1;n<=10;n++) if(fromDec(d,q,n)) return q;
  // continued fraction with small denominators
  {
    mpq_class x=abs(ex); mpz_class h0=1,h1=0,k0=0,k1=1; // convergents
    mpq_class y=x;
    mpz_class pm1=1,pm2=0,qm1=0,qm2=1;
    for(int i=0;i<40;i++){
      mpz_class a=y.get_num()/y.get_den();
      mpz_class pn=a*pm1+pm2,qn=a*qm1+qm2;
      if(qn>1000000) break;
      mpq_class c(pn,qn); c.canonicalize();
      mpq_class err=abs(c-x);
      if(err*mpq_class(mpz_class("2000000000000000"))<=x){ return d<0?mpq_class(-c):c; }
      pm2=pm1;pm1=pn;qm2=qm1;qm1=qn;
      mpq_class fr=y-mpq_class(a); if(fr==0) break; y=1/fr;
    }
  }
  return ex;
}
bool toDoubleExact(const mpq_class&q,double&d){
  d=q.get_d(); if(!std::isfinite(d)) return false;
  if(mpq_class(d)!=q) return false;
  if(mpz_sizeinbase(q.get_den_mpz_t(),2)<=24) return true;
  return snapDouble(d)==q;
}
