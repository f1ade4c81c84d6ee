// Symbolic expressions, hash-consed.  Sub-terms that depend on exactly one symbolic byte are
// kept in a canonical form: the complete 256-entry table of their values ("UN" nodes).  Everything
// else is an ordinary bit-vector DAG.  Both translate to Z3 bit-vector terms.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <unordered_map>
#include <string>
#include <cstdio>
#include <cstdlib>
#include <z3.h>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int64_t i64; typedef unsigned __int128 u128; typedef __int128 i128;

enum EOp : u8 { E_CONST, E_VAR, E_UN, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
  E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT };

struct Expr {
  EOp op; u8 w; u16 var; u8 hm;   // w: width 1..128 ; var: for VAR / UN
  u32 lo;                  // EXTRACT: low bit
  Expr *a, *b, *c;
  u64 k, k2;               // CONST value (k low, k2 high)
  u128 sup;                // support: bit per variable
  u64* tab;                // UN: 256 entries
  u64 hash; u32 id;
  Z3_ast z; u32 zepoch;
  u128 ev; u32 evstamp;
};
struct Val { u64 c; Expr* e; };

static inline u64 mask64(unsigned w){ return w>=64?~0ULL:((1ULL<<w)-1); }
static inline u128 mask128(unsigned w){ return w>=128?~(u128)0:(((u128)1<<w)-1); }
static inline i64 sext64(u64 v, unsigned w){ if(w>=64) return (i64)v; u64 m=1ULL<<(w-1); v&=mask64(w); return (i64)((v^m)-m); }
static inline i128 sext128(u128 v, unsigned w){ if(w>=128) return (i128)v; u128 m=(u128)1<<(w-1); v&=mask128(w); return (i128)((v^m)-m); }

#define MAXV 128
struct ExprCtx {
  std::unordered_multimap<u64, Expr*> table;
  u32 nexpr=0; u64 bytes=0;
  std::vector<u8> varw;              // not used for identity; vars are (idx,w)
  static u64 mix(u64 h, u64 v){ h^=v+0x9e3779b97f4a7c15ULL+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdULL; h^=h>>32; return h; }
  Expr* alloc(const Expr& t){ Expr* e=(Expr*)malloc(sizeof(Expr)); *e=t; e->id=++nexpr; e->z=nullptr; e->zepoch=0; e->evstamp=0; bytes+=sizeof(Expr); return e; }
  Expr* intern(Expr& t){
    u64 h=mix(t.op*131+t.w, t.var); h=mix(h,(u64)t.a); h=mix(h,(u64)t.b); h=mix(h,(u64)t.c); h=mix(h,t.k); h=mix(h,t.k2); h=mix(h,t.lo);
    if(t.op==E_UN) for(int i=0;i<256;i++) h=mix(h,t.tab[i]);
    t.hash=h;
    auto r=table.equal_range(h);
    for(auto it=r.first;it!=r.second;++it){ Expr*x=it->second;
      if(x->op==t.op&&x->w==t.w&&x->var==t.var&&x->a==t.a&&x->b==t.b&&x->c==t.c&&x->k==t.k&&x->k2==t.k2&&x->lo==t.lo&&
         (t.op!=E_UN||!memcmp(x->tab,t.tab,2048))) return x; }
    if(t.op==E_UN){ u64* nt=(u64*)malloc(2048); memcpy(nt,t.tab,2048); t.tab=nt; bytes+=2048; }
    Expr* e=alloc(t); table.emplace(h,e); return e;
  }
};
extern ExprCtx X;

static inline Expr mkT(EOp op,unsigned w){ Expr t; memset(&t,0,sizeof t); t.op=op; t.w=w; return t; }
static inline Expr* eConst(u128 v,unsigned w){ Expr t=mkT(E_CONST,w); v&=mask128(w); t.k=(u64)v; t.k2=(u64)(v>>64); return X.intern(t); }
static inline u128 cval(const Expr*e){ return ((u128)e->k2<<64)|e->k; }
static inline Expr* eUn(unsigned var,unsigned w,u64* tab){ // may return CONST
  bool same=true; for(int i=1;i<256;i++) if(tab[i]!=tab[0]){same=false;break;}
  if(same) return eConst(tab[0],w);
  Expr t=mkT(E_UN,w); t.var=var; t.tab=tab; t.sup=(u128)1<<var; if(w>8){ u64 d=tab[49]-tab[48]; t.hm=d>1&&tab[50]-tab[49]==d&&tab[57]-tab[56]==d; } return X.intern(t);
}
static inline Expr* eVar(unsigned idx,unsigned w){
  if(w==8){ u64 tab[256]; for(int i=0;i<256;i++) tab[i]=i; return eUn(idx,8,tab); }
  Expr t=mkT(E_VAR,w); t.var=idx; t.sup=(u128)1<<idx; return X.intern(t);
}
static inline u128 evalOp(EOp op,unsigned w,unsigned aw,u128 a,u128 b,u128 c,u32 lo){
  u128 m=mask128(w);
  switch(op){
    case E_ADD: return (a+b)&m; case E_SUB: return (a-b)&m; case E_MUL: return (a*b)&m;
    case E_UDIV: return b==0? m : (a/b)&m; case E_UREM: return b==0? a : (a%b)&m;
    case E_SDIV: { i128 x=sext128(a,aw),y=sext128(b,aw); if(y==0) return (x<0?1:m); if(y==-1) return (u128)(-x)&m; return (u128)(x/y)&m; }
    case E_SREM: { i128 x=sext128(a,aw),y=sext128(b,aw); if(y==0) return a; if(y==-1) return 0; return (u128)(x%y)&m; }
    case E_AND: return a&b; case E_OR: return a|b; case E_XOR: return a^b;
    case E_SHL: return b>=w?0:(a<<(unsigned)b)&m; case E_LSHR: return b>=w?0:(a>>(unsigned)b);
    case E_ASHR: { i128 x=sext128(a,aw); if(b>=w) b=w-1; return (u128)(x>>(unsigned)b)&m; }
    case E_EQ: return a==b; case E_ULT: return a<b; case E_ULE: return a<=b;
    case E_SLT: return sext128(a,aw)<sext128(b,aw); case E_SLE: return sext128(a,aw)<=sext128(b,aw);
    case E_ITE: return a? b : c;
    case E_ZEXT: return a; case E_SEXT: return (u128)sext128(a,aw)&m; case E_EXTRACT: return (a>>lo)&m;
    default: abort();
  }
}
static inline bool isC(const Expr*e){ return e->op==E_CONST; }
static inline bool unary1(u128 s){ return s && !(s&(s-1)); }
static inline unsigned lowvar(u128 s){ u64 l=(u64)s; if(l) return __builtin_ctzll(l); return 64+__builtin_ctzll((u64)(s>>64)); }

Expr* eOp(EOp op,unsigned w,Expr*a,Expr*b=nullptr,Expr*c=nullptr,u32 lo=0);
static inline Expr* eNot(Expr*a){ return eOp(E_XOR,1,a,eConst(1,1)); }
static inline Expr* eAnd(Expr*a,Expr*b){ return eOp(E_AND,1,a,b); }
static inline Expr* eOr(Expr*a,Expr*b){ return eOp(E_OR,1,a,b); }
u128 evalE(Expr*e,const u64* model);
extern u32 evalStamp;
