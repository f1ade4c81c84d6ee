// LLVM textual IR: types, module, lazily decoded function bodies.
#pragma once
#include "expr.h"
#include <string>
#include <vector>
#include <unordered_map>
#include <deque>
typedef std::string str;
enum TK : u8 { T_VOID, T_INT, T_PTR, T_FP, T_ARR, T_VEC, T_STRUCT, T_OTHER, T_OPAQUE };
struct Slot { u32 off; u16 w; u16 bytes; };            // one scalar of a flattened type
struct Type { TK k; u32 w=0; u64 n=0; Type* el=nullptr; std::vector<Type*> f; std::vector<u64> fo; std::vector<u32> fs; bool packed=false;
  u64 size=0; u64 align=1; u32 nslots=0; std::vector<Slot> slots; bool laid=false; bool big=false; };
struct Opnd { bool reg=false; u32 base=0; Type* ty=nullptr; };
enum IOp : u8 { I_BIN, I_FBIN, I_FNEG, I_ICMP, I_FCMP, I_CAST, I_SELECT, I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_EXTRACTVALUE, I_INSERTVALUE,
  I_EXTRACTELT, I_INSERTELT, I_SHUFFLE, I_CALL, I_RET, I_BR, I_CONDBR, I_SWITCH, I_UNREACHABLE, I_FREEZE, I_FENCE, I_CMPXCHG, I_ATOMICRMW, I_PHI, I_LANDINGPAD, I_RESUME, I_BAD };
enum { P_EQ,P_NE,P_UGT,P_UGE,P_ULT,P_ULE,P_SGT,P_SGE,P_SLT,P_SLE };
enum { F_ADD,F_SUB,F_MUL,F_DIV,F_REM };
enum { C_TRUNC,C_ZEXT,C_SEXT,C_BITCAST,C_PTRTOINT,C_INTTOPTR,C_FPTRUNC,C_FPEXT,C_FPTOUI,C_FPTOSI,C_UITOFP,C_SITOFP };
struct Func;
struct Inst { IOp op=I_BAD; u8 sub=0; Type* ty=nullptr; Type* sty=nullptr; u32 dst=0; std::vector<Opnd> o; std::vector<u32> bb; std::vector<u64> im;
  Func* callee=nullptr; i64 coff=0; str note; };
struct Block { std::vector<Inst> ins; u32 nphi=0; };
struct Func { str name; const char* def=nullptr; bool parsed=false; bool ext=true; bool weak=false; u32 id=0; int intr=-1; Type* ret=nullptr; bool vararg=false;
  std::vector<Opnd> params; std::vector<Block> blocks; u32 nregs=0; u64 framesz=0; u64 execs=0; };
struct Global { str name; const char* init=nullptr; Type* ty=nullptr; bool konst=false, ext=false, weak=false; u64 addr=0; str alias; };
#define OBJBASE 0x10000ULL
#define FNOBJ 1ULL
static inline u64 mkaddr(u64 id,u64 off){ return (id<<32)|(OBJBASE+off); }

struct Module {
  str text;
  std::unordered_map<str,Type*> named; std::unordered_map<str,const char*> namedDef;
  std::unordered_map<str,u32> gidx; std::vector<Global> globals;
  std::unordered_map<str,Func*> fidx; std::vector<Func*> funcs;
  std::vector<Val> pool;
  Type* tInt[129]={0}; Type *tPtr,*tVoid,*tOther; Type* tFp[129]={0};
  std::unordered_map<str,Type*> compound;
  void load(const char* path);
  void parseFunc(Func*);
  Func* fnByAddr(u64 a){ if((a>>32)!=FNOBJ) return nullptr; u64 i=((a&0xffffffff)-OBJBASE)/16; return i<funcs.size()? funcs[i]:nullptr; }
  u64 fnAddr(Func*f){ return mkaddr(FNOBJ,(u64)f->id*16); }
};
extern Module M;
[[noreturn]] void die(const char* fmt,...);
struct Lex { const char* p; 
  void ws(){ while(*p==' '||*p=='\t') p++; }
  void wsnl(){ for(;;){ while(*p==' '||*p=='\t'||*p=='\n'||*p=='\r') p++; if(*p==';'){ while(*p&&*p!='\n') p++; } else break; } }
  bool lit(const char* s){ ws(); size_t n=strlen(s); if(!strncmp(p,s,n)){ p+=n; return true; } return false; }
  static bool idc(char c){ return (c>='a'&&c<='z')||(c>='A'&&c<='Z')||(c>='0'&&c<='9')||c=='_'||c=='.'||c=='$'||c=='-'; }
  bool kw(const char* s){ ws(); size_t n=strlen(s); if(!strncmp(p,s,n)&&!idc(p[n])){ p+=n; return true; } return false; }
  str word(){ ws(); const char* b=p; while(idc(*p)) p++; return str(b,p); }
  str peekword(){ const char* s=p; str w=word(); p=s; return w; }
  str ident(){ // after sigil
    if(*p=='"'){ p++; str r; while(*p!='"'){ if(*p=='\\'){ if(p[1]=='\\'){ r+='\\'; p+=2; } else { r+=(char)strtol(str(p+1,p+3).c_str(),0,16); p+=3; } } else r+=*p++; } p++; return r; }
    const char* b=p; while(idc(*p)) p++; return str(b,p); }
  void eol(){ while(*p&&*p!='\n') p++; if(*p) p++; }
  void paren(){ // skip balanced (...)
    ws(); if(*p!='(') return; int d=0; do{ if(*p=='"'){ p++; while(*p!='"') p++; } if(*p=='(') d++; if(*p==')') d--; p++; } while(d); }
};
Type* parseType(Lex&);
void layout(Type*);
void parseConst(Lex& L,Type* t,std::vector<Val>& out);
