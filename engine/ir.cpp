#include "ir.h"
#include <cstdarg>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
Module M;
void die(const char* fmt,...){ va_list ap; va_start(ap,fmt); fprintf(stderr,"rsx: fatal: "); vfprintf(stderr,fmt,ap); fprintf(stderr,"\n"); va_end(ap); exit(3); }

static str lineAt(const char*p){ const char*e=p; while(*e&&*e!='\n'&&e-p<200) e++; const char*b=p; while(b>M.text.c_str()&&b[-1]!='\n'&&p-b<200) b--; return str(b,e); }
static Type* newT(TK k){ Type*t=new Type; t->k=k; return t; }
static Type* intT(unsigned w){ if(w>128) die("integer width %u",w); if(!M.tInt[w]){ Type*t=newT(T_INT); t->w=w; M.tInt[w]=t; layout(t);} return M.tInt[w]; }
static Type* fpT(unsigned w){ if(!M.tFp[w]){ Type*t=newT(T_FP); t->w=w; M.tFp[w]=t; layout(t);} return M.tFp[w]; }
static u64 alignUp(u64 v,u64 a){ return (v+a-1)/a*a; }
#define BIGSLOTS 4096
void layout(Type*t){
  if(t->laid) return; t->laid=true;
  switch(t->k){
    case T_INT: { u32 b=(t->w+7)/8; u64 s=1; while(s<b) s*=2; t->size=s; t->align=s>16?16:s; if(t->w==128){t->align=16;}
      if(t->w<=64) t->slots.push_back({0,(u16)t->w,(u16)b}); else { t->slots.push_back({0,64,8}); t->slots.push_back({8,(u16)(t->w-64),(u16)(b-8)}); } break; }
    case T_PTR: t->size=t->align=8; t->w=64; t->slots.push_back({0,64,8}); break;
    case T_FP: t->size=t->align=t->w/8; t->slots.push_back({0,(u16)t->w,(u16)(t->w/8)}); break;
    case T_ARR: layout(t->el); t->align=t->el->align; t->size=t->el->size*t->n;
      if(t->n*t->el->nslots>BIGSLOTS||t->el->big) t->big=true; else for(u64 i=0;i<t->n;i++) for(auto&s:t->el->slots) t->slots.push_back({(u32)(i*t->el->size+s.off),s.w,s.bytes}); break;
    case T_VEC: { layout(t->el); u64 bits=t->n*(t->el->k==T_PTR?64:t->el->w); u64 sz=1; while(sz*8<bits) sz*=2; t->size=sz; t->align=sz>16?16:sz;
      if(t->el->w<8&&t->el->k==T_INT){ for(u64 i=0;i<t->n;i++) t->slots.push_back({0xffffffff,(u16)t->el->w,0}); }
      else for(u64 i=0;i<t->n;i++) for(auto&s:t->el->slots) t->slots.push_back({(u32)(i*t->el->size+s.off),s.w,s.bytes}); break; }
    case T_STRUCT: { u64 o=0,al=1; for(auto f:t->f){ layout(f); u64 a=t->packed?1:f->align; o=alignUp(o,a); if(a>al) al=a; t->fo.push_back(o); t->fs.push_back(t->slots.size());
        if(f->big) t->big=true; else for(auto&s:f->slots) t->slots.push_back({(u32)(o+s.off),s.w,s.bytes}); o+=f->size; if(t->slots.size()>BIGSLOTS) t->big=true; }
      t->align=al; t->size=alignUp(o,al); break; }
    default: break;
  }
  t->nslots=t->slots.size();
}
Type* parseType(Lex& L){
  L.ws(); const char* p=L.p; Type* r=nullptr;
  if(*p=='i'&&p[1]>='0'&&p[1]<='9'){ L.p++; unsigned w=strtoul(L.p,(char**)&L.p,10); r=intT(w); }
  else if(L.kw("ptr")){ r=M.tPtr; L.ws(); if(!strncmp(L.p,"addrspace(",10)) L.paren(), 0; if(L.kw("addrspace")) L.paren(); }
  else if(L.kw("void")) r=M.tVoid;
  else if(L.kw("half")) r=fpT(16); else if(L.kw("bfloat")) r=fpT(16);
  else if(L.kw("float")) r=fpT(32); else if(L.kw("double")) r=fpT(64); else if(L.kw("fp128")) r=fpT(128); else if(L.kw("x86_fp80")) r=fpT(80);
  else if(L.kw("metadata")||L.kw("label")||L.kw("token")) r=M.tOther;
  else if(*p=='['){ L.p++; L.ws(); u64 n=strtoull(L.p,(char**)&L.p,10); if(!L.lit("x")) die("array type: %s",lineAt(p).c_str()); Type*e=parseType(L); L.ws(); if(*L.p!=']') die("array type end"); L.p++;
    str key="a"+std::to_string(n)+"_"+std::to_string((u64)e); auto&c=M.compound[key]; if(!c){ c=newT(T_ARR); c->n=n; c->el=e; } r=c; }
  else if(*p=='<'&&p[1]!='{'){ L.p++; L.ws(); u64 n=strtoull(L.p,(char**)&L.p,10); if(!L.lit("x")) die("vec type: %s",lineAt(p).c_str()); Type*e=parseType(L); L.ws(); if(*L.p!='>') die("vec type end"); L.p++;
    str key="v"+std::to_string(n)+"_"+std::to_string((u64)e); auto&c=M.compound[key]; if(!c){ c=newT(T_VEC); c->n=n; c->el=e; } r=c; }
  else if(*p=='{'||(*p=='<'&&p[1]=='{')){ bool pk=*p=='<'; L.p+=pk?2:1; std::vector<Type*> f; L.ws(); str key=pk?"p":"s"; while(*L.p!='}'){ Type*e=parseType(L); f.push_back(e); key+="_"+std::to_string((u64)e); L.lit(","); L.ws(); } L.p++; if(pk){ L.ws(); if(*L.p!='>') die("packed"); L.p++; }
    auto&c=M.compound[key]; if(!c){ c=newT(T_STRUCT); c->f=f; c->packed=pk; } r=c; }
  else if(*p=='%'){ L.p++; str n=L.ident(); auto it=M.named.find(n); if(it!=M.named.end()) r=it->second; else { auto d=M.namedDef.find(n); if(d==M.namedDef.end()) die("unknown type %s",n.c_str()); Type*ph=newT(T_STRUCT); M.named[n]=ph; Lex L2{d->second}; L2.ws(); if(L2.kw("opaque")) ph->k=T_OPAQUE; else { Type*t=parseType(L2); *ph=*t; ph->laid=false; ph->slots.clear(); ph->fo.clear(); ph->fs.clear(); } r=ph; } }
  else die("type? %s  @ %.40s",lineAt(p).c_str(),p);
  L.ws();
  if(*L.p=='('&&r!=M.tOther){ // function type: caller only wants the return type
    L.paren(); }
  layout(r); return r;
}
static Func* getFunc(const str&n){ auto it=M.fidx.find(n); return it==M.fidx.end()?nullptr:it->second; }
static u64 symAddr(const str& n){
  if(Func*f=getFunc(n)){ if(f->weak&&f->ext) return 0; return M.fnAddr(f); }
  auto g=M.gidx.find(n); if(g==M.gidx.end()) die("unknown symbol @%s",n.c_str());
  Global&G=M.globals[g->second]; if(!G.alias.empty()) return symAddr(G.alias); if(G.weak&&G.ext) return 0; return G.addr;
}
static u64 cOf(const std::vector<Val>&v){ return v.empty()?0:v[0].c; }
static void gepFlags(Lex&L){ for(;;){ L.ws(); if(L.kw("inbounds")||L.kw("nuw")||L.kw("nusw")) { continue; } if(L.kw("inrange")){ L.paren(); continue; } break; } }
static i64 constGep(Lex& L){ // at '('
  L.lit("("); Type*s=parseType(L); L.lit(","); Type*pt=parseType(L); std::vector<Val> b; parseConst(L,pt,b); u64 a=cOf(b); Type*cur=s; bool first=true;
  while(L.lit(",")){ L.kw("inrange"); Type*it=parseType(L); std::vector<Val> iv; parseConst(L,it,iv); i64 x=sext64(cOf(iv),it->w);
    if(first){ a+=x*(i64)s->size; first=false; } else if(cur->k==T_STRUCT){ a+=cur->fo[x]; cur=cur->f[x]; } else { cur=cur->el; a+=x*(i64)cur->size; } }
  L.lit(")"); return a;
}
void parseConst(Lex& L,Type* t,std::vector<Val>& out){
  L.ws(); const char* p=L.p;
  auto zero=[&](){ if(t->big) die("big zero const in value position"); for(u32 i=0;i<t->nslots;i++) out.push_back({0,nullptr}); };
  if((*p>='0'&&*p<='9')||*p=='-'||(*p=='+'&&t->k==T_FP)){
    if(t->k==T_FP&&(!strncmp(p+1,"inf",3)||!strncmp(p+1,"qnan",4))){ bool neg=*p=='-',inf=p[1]=='i'; L.p+=inf?4:5; u64 b=inf?0x7ff0000000000000ULL:0x7ff8000000000000ULL; if(t->w==32) b=inf?0x7f800000:0x7fc00000; if(t->w==16) b=inf?0x7c00:0x7e00; if(neg) b|=1ULL<<(t->w-1); out.push_back({b,nullptr}); return; }
    if(t->k==T_FP){ if(p[0]=='0'&&p[1]=='x'){ L.p+=2; if(*L.p=='H'){ L.p++; } u64 bits=strtoull(L.p,(char**)&L.p,16); if(t->w==32&&p[2]!='H'){ double d; memcpy(&d,&bits,8); float f=d; u32 b; memcpy(&b,&f,4); bits=b; } out.push_back({bits,nullptr}); }
      else { double d=strtod(L.p,(char**)&L.p); if(t->w==64){ u64 b; memcpy(&b,&d,8); out.push_back({b,nullptr}); } else if(t->w==32){ float f=d; u32 b; memcpy(&b,&f,4); out.push_back({b,nullptr}); } else { _Float16 h=(_Float16)d; u16 b; memcpy(&b,&h,2); out.push_back({b,nullptr}); } }
      return; }
    bool neg=false; if(*L.p=='-'){ neg=true; L.p++; } u128 v=0; while(*L.p>='0'&&*L.p<='9'){ v=v*10+(*L.p-'0'); L.p++; } if(neg) v=(u128)0-v; v&=mask128(t->w);
    out.push_back({(u64)(t->w<64? v&mask64(t->w):v),nullptr}); if(t->w>64) out.push_back({(u64)(v>>64),nullptr}); return; }
  if(*p=='@'){ L.p++; str n=L.ident(); out.push_back({symAddr(n),nullptr}); return; }
  if(*p=='c'&&p[1]=='"'){ L.p+=2; while(*L.p!='"'){ u8 c; if(*L.p=='\\'){ if(L.p[1]=='\\'){ c='\\'; L.p+=2; } else { c=strtol(str(L.p+1,L.p+3).c_str(),0,16); L.p+=3; } } else c=*L.p++; out.push_back({c,nullptr}); } L.p++; return; }
  if(*p=='['||*p=='{'||*p=='<'){ 
    if(*p=='<'&&p[1]=='{'){ L.p+=2; } else L.p++; L.ws();
    while(*L.p!=']'&&*L.p!='}'&&*L.p!='>'){ Type*e=parseType(L); parseConst(L,e,out); L.lit(","); L.ws(); } 
    if(*L.p=='}'&&*p=='<'){ L.p++; } L.p++; return; }
  if(L.kw("true")){ out.push_back({1,nullptr}); return; }
  if(L.kw("false")||L.kw("null")||L.kw("none")){ if(t->nslots<=1) out.push_back({0,nullptr}); else zero(); return; }
  if(L.kw("undef")||L.kw("poison")||L.kw("zeroinitializer")){ zero(); return; }
  if(L.kw("splat")){ L.lit("("); Type*e=parseType(L); std::vector<Val> v; parseConst(L,e,v); L.lit(")"); for(u64 i=0;i<t->n;i++) for(auto&x:v) out.push_back(x); return; }
  if(L.kw("getelementptr")){ gepFlags(L); out.push_back({(u64)constGep(L),nullptr}); return; }
  if(L.kw("blockaddress")) die("blockaddress");
  if(L.kw("dso_local_equivalent")||L.kw("no_cfi")){ L.lit("@"); out.push_back({symAddr(L.ident()),nullptr}); return; }
  static const char* casts[]={"ptrtoint","inttoptr","bitcast","trunc","zext","sext","addrspacecast","ptrtoaddr",nullptr};
  for(int i=0;casts[i];i++) if(L.kw(casts[i])){ L.kw("nuw"); L.kw("nsw"); L.lit("("); Type*s=parseType(L); std::vector<Val> v; parseConst(L,s,v); L.kw("to"); Type*d=parseType(L); L.lit(")"); u64 c=cOf(v); if(i==5) c=sext64(c,s->w); if(d->k==T_INT) c&=mask64(d->w); out.push_back({c,nullptr}); return; }
  static const char* bins[]={"add","sub","xor","mul","and","or","shl","lshr",nullptr};
  for(int i=0;bins[i];i++) if(L.kw(bins[i])){ while(L.kw("nuw")||L.kw("nsw")||L.kw("exact")||L.kw("disjoint")); L.lit("("); Type*s=parseType(L); std::vector<Val> a,b; parseConst(L,s,a); L.lit(","); Type*s2=parseType(L); parseConst(L,s2,b); L.lit(")");
    static const EOp eo[]={E_ADD,E_SUB,E_XOR,E_MUL,E_AND,E_OR,E_SHL,E_LSHR}; out.push_back({(u64)evalOp(eo[i],s->w?s->w:64,64,cOf(a),cOf(b),0,0),nullptr}); return; }
  die("const? %.60s in %s",p,lineAt(p).c_str());
}
// write the initialiser directly to memory (global data); pointers are plain 8-byte values
void parseInit(Lex& L,Type* t,u8* mem){
  L.ws(); const char*p=L.p;
  if(L.kw("zeroinitializer")||L.kw("undef")||L.kw("poison")) return;
  if(*p=='c'&&p[1]=='"'){ std::vector<Val> v; parseConst(L,t,v); for(size_t i=0;i<v.size();i++) mem[i]=v[i].c; return; }
  if(t->k==T_ARR){ if(*p!='[') die("arr init %.40s",p); L.p++; u64 i=0; L.ws(); while(*L.p!=']'){ Type*e=parseType(L); parseInit(L,e,mem+i*t->el->size); i++; L.lit(","); L.ws(); } L.p++; return; }
  if(t->k==T_STRUCT){ if(*p=='<') L.p+=2; else L.p++; u64 i=0; L.ws(); while(*L.p!='}'){ Type*e=parseType(L); parseInit(L,e,mem+t->fo[i]); i++; L.lit(","); L.ws(); } L.p++; if(*p=='<'){ L.ws(); L.p++; } return; }
  std::vector<Val> v; parseConst(L,t,v);
  for(u32 i=0;i<t->nslots;i++) memcpy(mem+t->slots[i].off,&v[i].c,t->slots[i].bytes);
}
// ---- module ----
static bool skipLinkage(Lex&L,bool& weak){
  static const char* kws[]={"private","internal","available_externally","linkonce","weak","common","appending","linkonce_odr","weak_odr","external","dso_local","dso_preemptable","hidden","protected","default","local_unnamed_addr","unnamed_addr","externally_initialized","dllimport","dllexport","fastcc","coldcc","ccc","noundef",nullptr};
  bool any=true; weak=false; bool ext=false;
  while(any){ any=false; if(L.kw("extern_weak")){ weak=true; ext=true; any=true; } if(L.kw("external")){ ext=true; any=true; }
    if(L.kw("thread_local")){ L.paren(); any=true; } if(L.kw("addrspace")){ L.paren(); any=true; }
    for(int i=0;kws[i];i++) if(L.kw(kws[i])) any=true; }
  return ext;
}
static void skipParamAttrs(Lex&L){
  static const char* par[]={"align","dereferenceable","dereferenceable_or_null","range","captures","initializes","byval","sret","nofpclass","elementtype","byref","inalloca","preallocated","memory","alignstack","allocsize","dead_on_return",nullptr};
  static const char* fl[]={"noundef","nonnull","noalias","nocapture","readonly","readnone","writeonly","zeroext","signext","inreg","nest","returned","noinline","immarg","swiftself","swifterror","swiftasync","nofree","allocptr","allocalign","dead_on_unwind","writable","dead_on_return","noext","noreturn","inrange","noreturn","cold","nounwind",nullptr};
  for(;;){ bool any=false; L.ws(); if(*L.p=='"'){ L.p++; while(*L.p!='"') L.p++; L.p++; if(*L.p=='='){ L.p+=2; while(*L.p!='"') L.p++; L.p++; } any=true; }
    for(int i=0;par[i];i++) if(L.kw(par[i])){ L.ws(); if(*L.p=='(') L.paren(); else if(!strcmp(par[i],"align")){ L.ws(); strtoull(L.p,(char**)&L.p,10);} any=true; }
    for(int i=0;fl[i];i++) if(L.kw(fl[i])) any=true;
    if(!any) break; }
}
void Module::load(const char* path){
  FILE*f=fopen(path,"rb"); if(!f) die("cannot open %s",path); fseek(f,0,SEEK_END); size_t n=ftell(f); fseek(f,0,SEEK_SET); text.resize(n); if(fread(&text[0],1,n,f)!=n) die("read"); fclose(f);
  tPtr=newT(T_PTR); layout(tPtr); tVoid=newT(T_VOID); layout(tVoid); tOther=newT(T_OTHER); layout(tOther);
  const char* p=text.c_str(); std::vector<std::pair<u32,const char*>> ginit;
  while(*p){
    if(*p=='@'){ Lex L{p+1}; Global g; g.name=L.ident(); L.lit("="); g.ext=skipLinkage(L,g.weak);
      if(L.kw("alias")){ Type*t=parseType(L);(void)t; L.lit(","); parseType(L); L.lit("@"); g.alias=L.ident(); }
      else { if(L.kw("constant")) g.konst=true; else if(!L.kw("global")) die("global %s: %.40s",g.name.c_str(),L.p); g.init=L.p; }
      gidx[g.name]=globals.size(); globals.push_back(g); }
    else if(*p=='%'){ Lex L{p+1}; str nm=L.ident(); L.lit("="); L.kw("type"); namedDef[nm]=L.p; }
    else if(!strncmp(p,"define ",7)||!strncmp(p,"declare ",8)){ const char* e=p; while(*e!='\n') e++; 
      bool d=*p=='d'&&p[2]=='f'; const char* q=p; // name: first @ outside quotes
      while(q<e&&*q!='@') q++; if(q<e){ Lex L{q+1}; Func*fn=new Func; fn->name=L.ident(); fn->def=p; fn->ext=!d; fn->weak=memmem(p,q-p,"extern_weak",11)!=nullptr; fn->id=funcs.size(); funcs.push_back(fn); fidx[fn->name]=fn; }
      if(d){ p=e; for(;;){ const char* nx=strstr(p,"\n}"); if(!nx) die("function end"); p=nx+2; break; } } }
    while(*p&&*p!='\n') p++; if(*p) p++;
  }
  u64 id=2; for(auto&g:globals) if(g.alias.empty()) g.addr=mkaddr(id++,0); else id++;
  for(auto&g:globals) if(g.init){ Lex L{g.init}; g.ty=parseType(L); g.init=g.ext?nullptr:L.p; }
}
// ---- function bodies ----
struct FP { Func*F; Lex L; std::unordered_map<str,std::pair<u32,Type*>> regs; std::unordered_map<str,u32> blk; u32 nextNum=0; u32 bnum=0;
  struct Fix{ u32 b,i; }; 
  // operands that refer to values defined later: resolved through a name table filled in a first pass
  u32 newReg(Type*t){ u32 b=F->nregs; F->nregs+=t->nslots; return b; }
  u32 cpool(const std::vector<Val>&v){ u32 b=M.pool.size(); M.pool.insert(M.pool.end(),v.begin(),v.end()); return b; }
  struct Pend{ u32 bi,ii,oi; str name; }; std::vector<Pend> pend; u32 curB=0;
  Opnd val(Type*t){ Opnd o; o.ty=t; L.ws(); if(*L.p=='%'){ L.p++; str n=L.ident(); auto it=regs.find(n); o.reg=true; if(it!=regs.end()){ o.base=it->second.first; } else { o.base=0xffffffff; pn=n; } return o; }
    if(!strncmp(L.p,"asm",3)) die("asm operand");
    if(t==M.tOther){ return o; }
    std::vector<Val> v; parseConst(L,t,v); o.base=cpool(v); return o; }
  str pn;
  Inst* I=nullptr;
  void add(Inst&in,Opnd o){ if(o.reg&&o.base==0xffffffff) pend.push_back({curB,(u32)F->blocks[curB].ins.size(),(u32)in.o.size(),pn}); in.o.push_back(o); }
  void addv(Inst&in,Type*t){ add(in,val(t)); }
  Type* addtv(Inst&in){ Type*t=parseType(L); skipParamAttrs(L); add(in,val(t)); return t; }
  u32 label(){ L.kw("label"); L.ws(); if(*L.p!='%') die("label: %.30s",L.p); L.p++; str n=L.ident(); auto it=blk.find(n); if(it==blk.end()) die("no block %s in %s",n.c_str(),F->name.c_str()); return it->second; }
};
static str labelOfLine(const char*p,const char**after){ // "name:" at line start
  const char*q=p; if(*q=='"'){ Lex L{q}; str n=L.ident(); if(*L.p==':'){ *after=L.p+1; return n; } return ""; }
  while(Lex::idc(*q)) q++; if(q>p&&*q==':'){ *after=q+1; return str(p,q); } return ""; }
void Module::parseFunc(Func*F){
  if(F->parsed) return; F->parsed=true;
  FP P; P.F=F; P.L.p=F->def; Lex&L=P.L; L.word(); bool wk; skipLinkage(L,wk); skipParamAttrs(L);
  for(;;){ const char*s=L.p; skipLinkage(L,wk); skipParamAttrs(L); if(L.kw("cc")){ L.ws(); strtoul(L.p,(char**)&L.p,10);} if(L.p==s) break; }
  F->ret=parseType(L); L.ws(); if(*L.p!='@') die("fn header %s: %.50s",F->name.c_str(),L.p); L.p++; L.ident(); L.lit("(");
  L.ws(); u32 num=0;
  while(*L.p!=')'){ if(L.lit("...")){ F->vararg=true; L.ws(); continue; } Type*t=parseType(L); skipParamAttrs(L); L.ws(); str n; if(*L.p=='%'){ L.p++; n=L.ident(); } else n=std::to_string(num); if(n==std::to_string(num)) num++;
    Opnd o; o.reg=true; o.ty=t; o.base=P.newReg(t); F->params.push_back(o); P.regs[n]={o.base,t}; L.lit(","); L.ws(); }
  if(F->ext) return;
  // body start
  while(!(*L.p=='{'&&L.p[1]=='\n')) L.p++; L.p+=2;
  // pass 1: blocks
  const char* body=L.p; const char* p=body; bool first=true; 
  while(*p!='}'){ const char*af; str lb; if(*p!=' '&&*p!='\n'&&*p!=';') lb=labelOfLine(p,&af); 
    if(!lb.empty()){ P.blk[lb]=F->blocks.size(); F->blocks.emplace_back(); }
    else if(first&&*p==' '){ P.blk[std::to_string(num)]=0; F->blocks.emplace_back(); }
    if(*p==' '||!lb.empty()) first=false;
    while(*p!='\n') p++; p++; }
  // pass 2: instructions
  L.p=body; int cb=-1; bool firstI=true;
  static const struct{const char*n; EOp e;} bins[]={{"add",E_ADD},{"sub",E_SUB},{"mul",E_MUL},{"udiv",E_UDIV},{"sdiv",E_SDIV},{"urem",E_UREM},{"srem",E_SREM},{"and",E_AND},{"or",E_OR},{"xor",E_XOR},{"shl",E_SHL},{"lshr",E_LSHR},{"ashr",E_ASHR}};
  static const char* casts[]={"trunc","zext","sext","bitcast","ptrtoint","inttoptr","fptrunc","fpext","fptoui","fptosi","uitofp","sitofp"};
  static const char* preds[]={"eq","ne","ugt","uge","ult","ule","sgt","sge","slt","sle"};
  auto flags=[&](){ static const char* fl[]={"nuw","nsw","exact","disjoint","nneg","samesign","inbounds","nusw","fast","nnan","ninf","nsz","arcp","contract","afn","reassoc",nullptr}; bool any=true; while(any){ any=false; for(int i=0;fl[i];i++) if(L.kw(fl[i])) any=true; if(L.kw("inrange")){ L.paren(); any=true; } } };
  while(*L.p!='}'){
    if(*L.p=='\n'){ L.p++; continue; }
    if(*L.p==';'){ L.eol(); continue; }
    if(*L.p!=' '){ const char*af; str lb=labelOfLine(L.p,&af); if(lb.empty()) die("line? %.60s",L.p); cb=P.blk[lb]; L.eol(); firstI=false; continue; }
    if(firstI){ cb=0; firstI=false; }
    P.curB=cb; Block&B=F->blocks[cb]; Inst in; L.ws(); if(*L.p==';'||*L.p=='#'){ L.eol(); continue; }
    str dst; bool has=false; const char* istart=L.p;
    if(*L.p=='%'){ L.p++; dst=L.ident(); L.lit("="); has=true; }
    auto def=[&](Type*t){ in.ty=t; in.dst=F->nregs; if(has){ in.dst=P.newReg(t); P.regs[dst]={in.dst,t}; } };
    str w=L.word(); bool ok=false;
    for(auto&b:bins) if(w==b.n){ flags(); Type*t=parseType(L); in.op=I_BIN; in.sub=b.e; P.addv(in,t); L.lit(","); P.addv(in,t); def(t); ok=true; break; }
    if(!ok) for(int i=0;i<12;i++) if(w==casts[i]||(i==4&&w=="ptrtoaddr")){ flags(); Type*t=P.addtv(in); L.kw("to"); Type*d=parseType(L); in.op=I_CAST; in.sub=i; in.sty=t; def(d); ok=true; break; }
    if(ok){}
    else if(w=="addrspacecast"){ Type*t=P.addtv(in); L.kw("to"); Type*d=parseType(L); in.op=I_CAST; in.sub=C_BITCAST; in.sty=t; def(d); }
    else if(w=="icmp"){ flags(); str pr=L.word(); in.op=I_ICMP; for(int i=0;i<10;i++) if(pr==preds[i]) in.sub=i; Type*t=parseType(L); in.sty=t; P.addv(in,t); L.lit(","); P.addv(in,t);
      if(t->k==T_VEC){ str key="v"+std::to_string(t->n)+"_"+std::to_string((u64)intT(1)); auto&c=compound[key]; if(!c){ c=newT(T_VEC); c->n=t->n; c->el=intT(1); layout(c);} def(c); } else def(intT(1)); }
    else if(w=="fcmp"){ flags(); in.note=L.word(); in.op=I_FCMP; Type*t=parseType(L); in.sty=t; P.addv(in,t); L.lit(","); P.addv(in,t); def(intT(1)); }
    else if(w=="fadd"||w=="fsub"||w=="fmul"||w=="fdiv"||w=="frem"){ flags(); in.op=I_FBIN; in.sub=w=="fadd"?F_ADD:w=="fsub"?F_SUB:w=="fmul"?F_MUL:w=="fdiv"?F_DIV:F_REM; Type*t=parseType(L); P.addv(in,t); L.lit(","); P.addv(in,t); def(t); }
    else if(w=="fneg"){ flags(); in.op=I_FNEG; Type*t=P.addtv(in); def(t); }
    else if(w=="select"){ flags(); in.op=I_SELECT; P.addtv(in); L.lit(","); P.addtv(in); L.lit(","); Type*t=P.addtv(in); def(t); }
    else if(w=="freeze"){ in.op=I_FREEZE; Type*t=P.addtv(in); def(t); }
    else if(w=="alloca"){ in.op=I_ALLOCA; L.kw("inalloca"); Type*t=parseType(L); in.sty=t; u64 al=t->align; in.im={t->size,0};
      while(L.lit(",")){ L.ws(); if(L.kw("align")){ L.ws(); al=strtoull(L.p,(char**)&L.p,10); } else if(*L.p=='!') break; else if(L.kw("addrspace")) L.paren(); else { Type*ct=parseType(L); P.addv(in,ct); } }
      if(al<1) al=1; 
      if(in.o.empty()||(!in.o[0].reg&&cb==0)){ u64 n=in.o.empty()?1:M.pool[in.o[0].base].c; in.o.clear(); F->framesz=alignUp(F->framesz,al); in.im[1]=F->framesz+1; F->framesz+=t->size*n; if(F->framesz%16==0&&t->size*n==0) F->framesz+=0; F->framesz+=8; }
      def(tPtr); }
    else if(w=="load"){ in.op=I_LOAD; L.kw("atomic"); L.kw("volatile"); Type*t=parseType(L); L.lit(","); P.addtv(in); def(t); }
    else if(w=="store"){ in.op=I_STORE; L.kw("atomic"); L.kw("volatile"); Type*t=P.addtv(in); in.sty=t; L.lit(","); P.addtv(in); in.ty=tVoid; }
    else if(w=="getelementptr"){ flags(); in.op=I_GEP; Type*s=parseType(L); L.lit(","); Type*pt=P.addtv(in); Type*cur=s; bool first=true; bool vec=pt->k==T_VEC; if(vec) die("vector gep in %s",F->name.c_str());
      for(;;){ const char*sv=L.p; if(!L.lit(",")) break; L.ws(); if(*L.p=='!'||!strncmp(L.p,"align",5)){ L.p=sv; break; } Type*it=parseType(L); Opnd o=P.val(it); u64 scale; 
        if(first){ scale=s->size; first=false; } else if(cur->k==T_STRUCT){ u64 x=M.pool[o.base].c; in.coff+=cur->fo[x]; cur=cur->f[x]; continue; } else { cur=cur->el; scale=cur->size; }
        if(!o.reg){ in.coff+=sext64(M.pool[o.base].c,it->w)*(i64)scale; } else { P.add(in,o); in.im.push_back(scale); } }
      def(tPtr); }
    else if(w=="extractvalue"){ in.op=I_EXTRACTVALUE; Type*t=P.addtv(in); u32 s=0; Type*c=t; while(L.lit(",")){ L.ws(); if(*L.p=='!') break; u64 i=strtoull(L.p,(char**)&L.p,10); if(c->k==T_STRUCT){ s+=c->fs[i]; c=c->f[i]; } else { c=c->el; s+=i*c->nslots; } } in.im={s}; def(c); }
    else if(w=="insertvalue"){ in.op=I_INSERTVALUE; Type*t=P.addtv(in); L.lit(","); P.addtv(in); u32 s=0; Type*c=t; while(L.lit(",")){ L.ws(); if(*L.p=='!') break; u64 i=strtoull(L.p,(char**)&L.p,10); if(c->k==T_STRUCT){ s+=c->fs[i]; c=c->f[i]; } else { c=c->el; s+=i*c->nslots; } } in.im={s,c->nslots}; def(t); }
    else if(w=="extractelement"){ in.op=I_EXTRACTELT; Type*t=P.addtv(in); L.lit(","); P.addtv(in); in.sty=t; def(t->el); }
    else if(w=="insertelement"){ in.op=I_INSERTELT; Type*t=P.addtv(in); L.lit(","); P.addtv(in); L.lit(","); P.addtv(in); def(t); }
    else if(w=="shufflevector"){ in.op=I_SHUFFLE; Type*t=P.addtv(in); L.lit(","); P.addtv(in); L.lit(","); Type*mt=parseType(L); std::vector<Val> mv; parseConst(L,mt,mv); in.sty=t; for(auto&m:mv) in.im.push_back(m.c); 
      str key="v"+std::to_string(mt->n)+"_"+std::to_string((u64)t->el); auto&c=compound[key]; if(!c){ c=newT(T_VEC); c->n=mt->n; c->el=t->el; layout(c);} def(c); }
    else if(w=="phi"){ flags(); in.op=I_PHI; Type*t=parseType(L); do{ L.lit("["); P.addv(in,t); L.lit(","); in.bb.push_back(P.label()); L.lit("]"); }while(L.lit(",")&&(L.ws(),*L.p=='[')); def(t); B.nphi++; }
    else if(w=="br"){ L.ws(); if(!strncmp(L.p,"label",5)){ in.op=I_BR; in.bb.push_back(P.label()); } else { in.op=I_CONDBR; P.addtv(in); L.lit(","); in.bb.push_back(P.label()); L.lit(","); in.bb.push_back(P.label()); } in.ty=tVoid; }
    else if(w=="switch"){ in.op=I_SWITCH; Type*t=P.addtv(in); L.lit(","); in.bb.push_back(P.label()); L.lit("["); L.wsnl(); while(*L.p!=']'){ Type*ct=parseType(L); std::vector<Val> v; parseConst(L,ct,v); in.im.push_back(v[0].c); L.lit(","); in.bb.push_back(P.label()); L.wsnl(); } in.sty=t; in.ty=tVoid; }
    else if(w=="ret"){ in.op=I_RET; Type*t=parseType(L); if(t->k!=T_VOID) P.addv(in,t); in.ty=tVoid; }
    else if(w=="unreachable"){ in.op=I_UNREACHABLE; in.ty=tVoid; }
    else if(w=="fence"){ in.op=I_FENCE; in.ty=tVoid; }
    else if(w=="resume"){ in.op=I_RESUME; P.addtv(in); in.ty=tVoid; }
    else if(w=="landingpad"){ in.op=I_LANDINGPAD; Type*t=parseType(L); def(t); L.eol(); while(L.peekword()=="cleanup"||L.peekword()=="catch"||L.peekword()=="filter") L.eol(); B.ins.push_back(in); continue; }
    else if(w=="cmpxchg"){ in.op=I_CMPXCHG; L.kw("weak"); L.kw("volatile"); P.addtv(in); L.lit(","); Type*t=P.addtv(in); L.lit(","); P.addtv(in); in.sty=t; str key="s_"+std::to_string((u64)t)+"_"+std::to_string((u64)intT(1)); auto&c=compound[key]; if(!c){ c=newT(T_STRUCT); c->f={t,intT(1)}; layout(c);} def(c); }
    else if(w=="atomicrmw"){ in.op=I_ATOMICRMW; L.kw("volatile"); in.note=L.word(); P.addtv(in); L.lit(","); Type*t=P.addtv(in); def(t); }
    else if(w=="tail"||w=="musttail"||w=="notail"||w=="call"||w=="invoke"){
      if(w!="call"&&w!="invoke") L.word(); in.op=I_CALL; flags();
      for(;;){ const char*s=L.p; bool q; skipLinkage(L,q); skipParamAttrs(L); flags(); if(L.kw("cc")){ L.ws(); strtoul(L.p,(char**)&L.p,10);} if(L.p==s) break; }
      Type*rt=parseType(L); L.ws();
      Opnd fnop; bool dir=false; bool isasm=false;
      if(*L.p=='@'){ L.p++; str n=L.ident(); in.callee=getFunc(n); if(!in.callee){ auto g=gidx.find(n); if(g!=gidx.end()&&!globals[g->second].alias.empty()) in.callee=getFunc(globals[g->second].alias); } if(!in.callee) die("callee @%s",n.c_str()); dir=true; }
      else if(L.kw("asm")){ isasm=true; while(L.kw("sideeffect")||L.kw("alignstack")||L.kw("inteldialect")||L.kw("unwind")); L.ws(); L.p++; const char*b=L.p; while(*L.p!='"') L.p++; in.note=str(b,L.p); L.p++; L.lit(","); L.ws(); L.p++; while(*L.p!='"') L.p++; L.p++; }
      else fnop=P.val(tPtr);
      if(!dir&&!isasm) P.add(in,fnop);
      in.im={dir?1ull:isasm?2ull:0ull};
      L.lit("("); L.ws(); while(*L.p!=')'){ Type*t=parseType(L); if(t==tOther){ // metadata argument: skip to , or )
          int d=0; while(*L.p&&!(d==0&&(*L.p==','||*L.p==')'))){ if(*L.p=='(') d++; if(*L.p==')') d--; L.p++; } Opnd o; o.ty=tOther; in.o.push_back(o); }
        else { skipParamAttrs(L); P.addv(in,t); } L.lit(","); L.ws(); } L.p++;
      if(w=="invoke"){ while(strncmp(L.p,"to label",8)) L.p++; L.p+=2; in.bb.push_back(P.label()); L.wsnl(); if(!L.kw("unwind")) die("unwind"); P.label(); }
      def(rt); }
    else { in.op=I_BAD; in.note=str(istart,strchr(istart,'\n')-istart); in.ty=tVoid; }
    B.ins.push_back(std::move(in)); L.eol();
  }
  for(auto&pe:P.pend){ auto it=P.regs.find(pe.name); if(it==P.regs.end()) die("undefined %%%s in %s",pe.name.c_str(),F->name.c_str()); F->blocks[pe.bi].ins[pe.ii].o[pe.oi].base=it->second.first; }
}
