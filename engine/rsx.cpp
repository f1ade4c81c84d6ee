// rsx: symbolic executor for LLVM IR produced from Rust crates.  See DESIGN.md.
#include "ir.h"
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <chrono>
#include <csignal>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <cmath>
#include <cstdarg>
void parseInit(Lex& L,Type* t,u8* mem);
static double now(){ using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ memory
struct Obj { u32 rc; u64 size; bool konst; u8* d; Expr** s; };
struct Chunk { u32 rc; Obj* o[64]; };
static Obj* newObj(u64 size){ Obj*o=(Obj*)malloc(sizeof(Obj)); o->rc=1; o->size=size; o->konst=false; o->d=(u8*)calloc(1,size?size:1); o->s=nullptr; return o; }
static void decObj(Obj*o){ if(o&&--o->rc==0){ free(o->d); free(o->s); free(o); } }
static Obj* dupObj(Obj*o){ Obj*n=(Obj*)malloc(sizeof(Obj)); *n=*o; n->rc=1; n->d=(u8*)malloc(o->size?o->size:1); memcpy(n->d,o->d,o->size); if(o->s){ n->s=(Expr**)malloc(8*(o->size?o->size:1)); memcpy(n->s,o->s,8*o->size); } return n; }
static void decChunk(Chunk*c){ if(c&&--c->rc==0){ for(auto o:c->o) decObj(o); free(c); } }

struct Frame { u32 rc; Func* f; u32 bb,pc,prev; const Inst* callI; u64 aobj; std::vector<u64>* extra; Val regs[0]; };
static u64 gFramesAlive=0;
static Frame* newFrame(Func*f){ Frame*fr=(Frame*)malloc(sizeof(Frame)+sizeof(Val)*f->nregs); fr->rc=1; fr->f=f; fr->bb=fr->pc=fr->prev=0; fr->callI=nullptr; fr->aobj=0; fr->extra=nullptr; memset(fr->regs,0,sizeof(Val)*f->nregs); return fr; }
static void decFrame(Frame*f){ if(--f->rc==0){ delete f->extra; free(f); } }
static Frame* dupFrame(Frame*f){ size_t n=sizeof(Frame)+sizeof(Val)*f->f->nregs; Frame*r=(Frame*)malloc(n); memcpy(r,f,n); r->rc=1; if(f->extra) r->extra=new std::vector<u64>(*f->extra); return r; }

struct Dom { u64 b[4]; 
  bool has(unsigned v)const{ return b[v>>6]>>(v&63)&1; } int count()const{ return __builtin_popcountll(b[0])+__builtin_popcountll(b[1])+__builtin_popcountll(b[2])+__builtin_popcountll(b[3]); }
  int first()const{ for(int i=0;i<4;i++) if(b[i]) return i*64+__builtin_ctzll(b[i]); return -1; } };
struct Input { u8 kind; u16 var; u64 val; };     // kind 0: symbolic variable, 1: concrete choice
struct State {
  std::vector<Chunk*> mem; u64 nextId=0; std::vector<Frame*> st;
  bool panics=false; u32 nvars=0; Dom dom[MAXV]; u8 vw[MAXV]; u64 model[MAXV]; u128 coupled=0, fixed=0; std::vector<Expr*> cons; std::vector<std::pair<Expr*,u64>> known;
  std::vector<Input> in; std::vector<Val> trace; std::set<u32> covers; u64 steps=0; u32 depthDec=0; std::map<str,u64> fdpos; int nextFd=100; std::map<int,std::pair<str,u64>> fds; std::map<str,std::pair<u64,u64>> vfiles; u32 err=0; u64 errnoObj=0; u64 seed=0; bool warm=false; u64 tlskeys=0; std::map<u64,u64> tls;
  bool iso=false; std::vector<Chunk*> isoMem; std::map<u64,u64> isoTls;   // memory as it was when an isolated call began
};
static State* cloneState(State*s){ State*n=new State(*s); for(auto c:n->mem) if(c) c->rc++; for(auto c:n->isoMem) if(c) c->rc++; for(auto f:n->st) f->rc++; if(!n->st.empty()){ Frame*&t=n->st.back(); t->rc--; t=dupFrame(t); } return n; }
static void killState(State*s){ for(auto c:s->mem) decChunk(c); for(auto c:s->isoMem) decChunk(c); for(auto f:s->st) decFrame(f); delete s; }
struct Stop{}; struct Forked{};          // control-flow exceptions inside one state
struct PathEnd{ str why; };              // infeasible / assumed away
[[noreturn]] static void unsupported(const char* fmt,...);
static str where(State&S){ str r; for(size_t i=S.st.size();i-->0&&S.st.size()-i<7;) r+=S.st[i]->f->name+" <- "; return r; }

// ------------------------------------------------------------------ options, statistics
struct Stats { u64 paths=0,assumed=0,decisions=0,forks=0,instrs=0,z3q=0,z3sat=0,z3unsat=0,cacheHits=0,asserts=0,assertsConst=0,assertsQ=0,domq=0,xchk=0,xbad=0,maxdepth=0,assertXq=0,liaq=0,retry=0; double z3t=0; } ST;
static u64 OPT_steps=300000000; static double OPT_time=600; static u32 OPT_depth=3000; static int OPT_jobs=8; static u64 OPT_samples=40; static u64 OPT_seed=1; static int OPT_maxviol=3; static unsigned OPT_rlimit=400000000; static bool OPT_v=false,OPT_eager=false; static u64 OPT_xchk=61; static std::vector<i64> OPT_params;
static double T0;
static std::map<u32,u64> coverHits; static std::set<str> fnSeen;
struct Viol { str kind; u32 id; str detail; std::vector<u64> inputs; }; static std::vector<Viol> viols;
struct Sample { std::vector<u64> inputs; std::vector<u64> trace; }; static std::vector<Sample> samples;
static str incomplete;   // non-empty: out of time, exploration stopped
static str partial; static u64 cut=0;   // paths given up (the rest is still explored), with the first reason
static double pathWeight=0; // number of byte-input assignments covered by completed paths, when exact
static bool weightExact=true;
[[noreturn]] static void unsupported(const char* fmt,...){ char buf[1000]; va_list ap; va_start(ap,fmt); vsnprintf(buf,sizeof buf,fmt,ap); va_end(ap); if(partial.empty()) partial=str("unsupported: ")+buf; cut++; throw Stop(); }
static void degrade(const str&why){ if(partial.empty()) partial=why; cut++; }
static u64 OPT_vals=600;
static u64 rng=88172645463325252ULL; static u64 rnd(){ rng^=rng<<13; rng^=rng>>7; rng^=rng<<17; return rng; }

// ------------------------------------------------------------------ solver
static Z3_context Z; static u32 zepoch=1;
static Z3_ast zvars[MAXV*2]; 
static Z3_sort bvs(unsigned w){ static Z3_sort s[130]; if(!s[w]) s[w]=Z3_mk_bv_sort(Z,w); return s[w]; }
static void zerr(Z3_context c,Z3_error_code e){ die("z3 error: %s",Z3_get_error_msg(c,e)); }
static void zinit(){ Z3_config c=Z3_mk_config(); Z=Z3_mk_context(c); Z3_set_error_handler(Z,zerr); }
static Z3_ast zconst(u128 v,unsigned w){ if(w<=64) return Z3_mk_unsigned_int64(Z,(u64)v,bvs(w)); Z3_ast hi=Z3_mk_unsigned_int64(Z,(u64)(v>>64),bvs(w-64)), lo=Z3_mk_unsigned_int64(Z,(u64)v,bvs(64)); return Z3_mk_concat(Z,hi,lo); }
static Z3_ast zvar(unsigned i,unsigned w){ int k=i*2+(w==8?0:1); if(!zvars[k]){ char n[32]; snprintf(n,32,"v%u_%u",i,w); zvars[k]=Z3_mk_const(Z,Z3_mk_string_symbol(Z,n),bvs(w)); } return zvars[k]; }
static Z3_ast zrange(Z3_ast v,unsigned lo,unsigned hi){ if(lo==hi) return Z3_mk_eq(Z,v,zconst(lo,8)); Z3_ast a[2]; int n=0; if(lo>0) a[n++]=Z3_mk_bvuge(Z,v,zconst(lo,8)); if(hi<255) a[n++]=Z3_mk_bvule(Z,v,zconst(hi,8)); if(n==0) return Z3_mk_true(Z); if(n==1) return a[0]; return Z3_mk_and(Z,2,a); }
static Z3_ast zset(Z3_ast v,const std::function<bool(int)>& f){ std::vector<Z3_ast> o; int i=0; while(i<256){ if(!f(i)){ i++; continue; } int j=i; while(j<255&&f(j+1)) j++; o.push_back(zrange(v,i,j)); i=j+1; } if(o.empty()) return Z3_mk_false(Z); if(o.size()==1) return o[0]; return Z3_mk_or(Z,o.size(),o.data()); }
static Z3_ast b2bv(Z3_ast b){ return Z3_mk_ite(Z,b,zconst(1,1),zconst(0,1)); }
static Z3_ast bv2b(Z3_ast b){ return Z3_mk_eq(Z,b,zconst(1,1)); }
static Z3_ast zt(Expr*e){
  if(e->zepoch==zepoch&&e->z) return e->z; Z3_ast r=nullptr;
  auto A=[&](){ return zt(e->a); }; auto B=[&](){ return zt(e->b); };
  switch(e->op){
    case E_CONST: r=zconst(cval(e),e->w); break;
    case E_VAR: r=zvar(e->var,e->w); break;
    case E_UN: { Z3_ast v=zvar(e->var,8); if(e->w==1){ r=b2bv(zset(v,[&](int i){ return e->tab[i]&1; })); break; }
      // pieces: constant runs, or value = index + offset
      struct Pc{ int lo,hi; bool lin; u64 val; }; std::vector<Pc> ps; int i=0; u64 m=mask64(e->w);
      while(i<256){ int j=i; while(j<255&&e->tab[j+1]==e->tab[i]) j++; int k=i; while(k<255&&((e->tab[k+1]-e->tab[k])&m)==1) k++; if(k>j) { ps.push_back({i,k,true,(e->tab[i]-(u64)i)&m}); i=k+1; } else { ps.push_back({i,j,false,e->tab[i]}); i=j+1; } }
      Z3_ast vx=e->w==8? v : e->w>8? Z3_mk_zero_ext(Z,e->w-8,v) : Z3_mk_extract(Z,e->w-1,0,v);
      auto pv=[&](Pc&p){ if(!p.lin) return zconst(p.val,e->w); if(p.val==0) return vx; return Z3_mk_bvadd(Z,vx,zconst(p.val,e->w)); };
      r=pv(ps.back()); for(int q=(int)ps.size()-2;q>=0;q--) r=Z3_mk_ite(Z,Z3_mk_bvule(Z,v,zconst(ps[q].hi,8)),pv(ps[q]),r); break; }
    case E_ADD: r=Z3_mk_bvadd(Z,A(),B()); break; case E_SUB: r=Z3_mk_bvsub(Z,A(),B()); break; case E_MUL: r=Z3_mk_bvmul(Z,A(),B()); break;
    case E_UDIV: r=Z3_mk_bvudiv(Z,A(),B()); break; case E_SDIV: r=Z3_mk_bvsdiv(Z,A(),B()); break; case E_UREM: r=Z3_mk_bvurem(Z,A(),B()); break; case E_SREM: r=Z3_mk_bvsrem(Z,A(),B()); break;
    case E_AND: r=Z3_mk_bvand(Z,A(),B()); break; case E_OR: r=Z3_mk_bvor(Z,A(),B()); break; case E_XOR: r=Z3_mk_bvxor(Z,A(),B()); break;
    case E_SHL: r=Z3_mk_bvshl(Z,A(),B()); break; case E_LSHR: r=Z3_mk_bvlshr(Z,A(),B()); break; case E_ASHR: r=Z3_mk_bvashr(Z,A(),B()); break;
    case E_EQ: r=b2bv(Z3_mk_eq(Z,A(),B())); break; case E_ULT: r=b2bv(Z3_mk_bvult(Z,A(),B())); break; case E_ULE: r=b2bv(Z3_mk_bvule(Z,A(),B())); break; case E_SLT: r=b2bv(Z3_mk_bvslt(Z,A(),B())); break; case E_SLE: r=b2bv(Z3_mk_bvsle(Z,A(),B())); break;
    case E_ITE: r=Z3_mk_ite(Z,bv2b(A()),B(),zt(e->c)); break;
    case E_ZEXT: r=Z3_mk_zero_ext(Z,e->w-e->a->w,A()); break; case E_SEXT: r=Z3_mk_sign_ext(Z,e->w-e->a->w,A()); break;
    case E_EXTRACT: r=Z3_mk_extract(Z,e->lo+e->w-1,e->lo,A()); break; case E_CONCAT: r=Z3_mk_concat(Z,A(),B()); break;
  }
  e->z=r; e->zepoch=zepoch; return r;
}
static Z3_ast zdom(State&S,unsigned v){ Dom&d=S.dom[v]; return zset(zvar(v,8),[&](int i){ return d.has(i); }); }
#include "lia.h"
static bool hasMul(Expr*e){ return e->hm; }
struct QR{ bool sat; std::vector<std::pair<u16,u64>> m; };
static std::unordered_map<u64,std::vector<std::pair<std::pair<u64,u64>,QR>>> qcache;
// is PC(slice of c) && c satisfiable?  on success model (copied into out) satisfies PC && c
static bool zcheck(State&S,Expr*c,u64* out,bool noslice=false){
  u128 sup=c->sup; std::vector<Expr*> use; 
  if(noslice){ use=S.cons; for(auto x:use) sup|=x->sup; for(u32 i=0;i<S.nvars;i++) if(S.vw[i]==8) sup|=(u128)1<<i; }
  else { std::vector<Expr*> rest=S.cons; bool ch=true; while(ch){ ch=false; for(size_t i=0;i<rest.size();) if(rest[i]->sup&sup){ sup|=rest[i]->sup; use.push_back(rest[i]); rest[i]=rest.back(); rest.pop_back(); ch=true; } else i++; } }
  std::vector<u32> ids; for(auto x:use) ids.push_back(x->id); std::sort(ids.begin(),ids.end());
  u64 h1=ExprCtx::mix(c->id,17),h2=ExprCtx::mix(c->hash,99); for(u32 i:ids){ h1=ExprCtx::mix(h1,i); h2=ExprCtx::mix(h2,i*31+7); }
  for(u32 i=0;i<S.nvars;i++) if(sup>>i&1){ h1=ExprCtx::mix(h1,i); for(int k=0;k<4;k++){ h1=ExprCtx::mix(h1,S.dom[i].b[k]); h2=ExprCtx::mix(h2,S.dom[i].b[k]+k); } }
  auto&bk=qcache[h1]; for(auto&p:bk) if(p.first.second==h2&&p.first.first==h1){ ST.cacheHits++; if(p.second.sat&&out){ memcpy(out,S.model,sizeof S.model); for(auto&m:p.second.m) out[m.first]=m.second; } return p.second.sat; }
  double t=now(); static u64 cnt=0; cnt++; const unsigned rl=std::max(2000000.0,std::min((double)OPT_rlimit,(OPT_time-(t-T0))*4e6));
  bool mul=hasMul(c); for(auto x:use) mul|=hasMul(x);
  if(mul&&__builtin_popcountll((u64)sup)+__builtin_popcountll((u64)(sup>>64))>=4){ Lia L(S); std::vector<Expr*> ord; for(auto x:S.cons) if(std::find(use.begin(),use.end(),x)!=use.end()) ord.push_back(x);
    std::vector<Z3_ast> fs; for(auto x:ord) if(L.ok){ fs.push_back(L.Bx(x)); L.learnFrom(x); } fs.push_back(L.Bx(c));
    if(!L.ok&&OPT_v) fprintf(stderr,"[lia fail %d]\n",L.failop);
    if(L.ok){ Z3_solver s=Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z,s); { Z3_params p=Z3_mk_params(Z); Z3_params_inc_ref(Z,p); Z3_params_set_uint(Z,p,Z3_mk_string_symbol(Z,"rlimit"),rl/8); Z3_solver_set_params(Z,s,p); Z3_params_dec_ref(Z,p); }
      for(auto f:fs) Z3_solver_assert(Z,s,f);
      for(u32 i=0;i<S.nvars;i++) if(sup>>i&1){ if(S.vw[i]==8){ Dom&d=S.dom[i]; Z3_solver_assert(Z,s,L.set(i,[&](int k){ return d.has(k); })); } else { Z3_ast v=L.var(i); Z3_solver_assert(Z,s,Z3_mk_ge(Z,v,L.num(0))); Z3_solver_assert(Z,s,Z3_mk_lt(Z,v,L.num(Lia::p2(S.vw[i])))); } }
      Z3_lbool r=Z3_solver_check(Z,s); 
      if(r!=Z3_L_UNDEF){ ST.z3q++; ST.liaq++; QR q; q.sat=r==Z3_L_TRUE;
        if(q.sat){ ST.z3sat++; Z3_model m=Z3_solver_get_model(Z,s); Z3_model_inc_ref(Z,m); for(u32 i=0;i<S.nvars;i++) if(sup>>i&1){ Z3_ast v; uint64_t x=0; Z3_model_eval(Z,m,L.var(i),true,&v); Z3_get_numeral_uint64(Z,v,&x); q.m.push_back({(u16)i,x}); } Z3_model_dec_ref(Z,m);
          u64 tmp[MAXV]; memcpy(tmp,S.model,sizeof tmp); for(auto&mm:q.m) tmp[mm.first]=mm.second; if(!(evalE(c,tmp)&1)) die("integer model does not satisfy the query (encoding bug)"); for(auto x:use) if(!(evalE(x,tmp)&1)) die("integer model does not satisfy a constraint"); if(out) memcpy(out,tmp,sizeof tmp); }
        else ST.z3unsat++;
        Z3_solver_dec_ref(Z,s); double dt=now()-t; ST.z3t+=dt; if(OPT_v&&dt>0.01) fprintf(stderr,"[slow lia %.3f] %s\n",dt,where(S).c_str()); bk.push_back({{h1,h2},q}); return q.sat; }
      Z3_solver_dec_ref(Z,s); if(OPT_v){ fprintf(stderr,"[lia unknown %.3f] %s\n",now()-t,where(S).c_str()); for(auto f:fs) fprintf(stderr,"%s\n",Z3_ast_to_string(Z,f)); } }
  }
  Z3_solver s=nullptr; Z3_lbool r=Z3_L_UNDEF; static Z3_symbol qfbv=Z3_mk_string_symbol(Z,"QF_BV");
  for(int att=0;att<2&&r==Z3_L_UNDEF;att++){ // a quick attempt with the incremental core, then the bit-blasting tactic
    if(s) Z3_solver_dec_ref(Z,s); s=att==0?Z3_mk_simple_solver(Z):Z3_mk_solver_for_logic(Z,qfbv); Z3_solver_inc_ref(Z,s);
    { Z3_params p=Z3_mk_params(Z); Z3_params_inc_ref(Z,p); Z3_params_set_uint(Z,p,Z3_mk_string_symbol(Z,"rlimit"),att==0?std::min(rl,OPT_rlimit/200):rl); Z3_solver_set_params(Z,s,p); Z3_params_dec_ref(Z,p); }
    Z3_solver_assert(Z,s,bv2b(zt(c))); for(auto x:use) Z3_solver_assert(Z,s,bv2b(zt(x)));
    for(u32 i=0;i<S.nvars;i++) if((sup>>i&1)&&S.vw[i]==8) Z3_solver_assert(Z,s,zdom(S,i));
    if(OPT_v&&getenv("RSX_DUMP")){ FILE*f=fopen("/tmp/r/q.smt2","w"); fputs(Z3_solver_to_string(Z,s),f); fprintf(f,"(check-sat)\n; %s\n",where(S).c_str()); fclose(f); }
    r=Z3_solver_check(Z,s); if(r==Z3_L_UNDEF) ST.retry++; }
  ST.z3q++; if(r==Z3_L_UNDEF){ Z3_solver_dec_ref(Z,s); ST.z3t+=now()-t; degrade("solver gave no answer at "+where(S)); return false; }
  QR q; q.sat=r==Z3_L_TRUE;
  if(q.sat){ ST.z3sat++; Z3_model m=Z3_solver_get_model(Z,s); Z3_model_inc_ref(Z,m); for(u32 i=0;i<S.nvars;i++) if(sup>>i&1){ Z3_ast v; uint64_t x=0; Z3_model_eval(Z,m,zvar(i,S.vw[i]),true,&v); Z3_get_numeral_uint64(Z,v,&x); q.m.push_back({(u16)i,x}); } Z3_model_dec_ref(Z,m);
    u64 tmp[MAXV]; memcpy(tmp,S.model,sizeof tmp); for(auto&mm:q.m) tmp[mm.first]=mm.second; if(!(evalE(c,tmp)&1)) die("solver model does not satisfy the query (encoding bug)"); for(auto x:use) if(!(evalE(x,tmp)&1)) die("solver model does not satisfy a constraint"); if(out) memcpy(out,tmp,sizeof tmp); }
  else ST.z3unsat++;
  Z3_solver_dec_ref(Z,s); { double dt=now()-t; ST.z3t+=dt; if(OPT_v&&dt>0.01) fprintf(stderr,"[slow %.3f] %s\n%s\n",dt,where(S).c_str(),Z3_ast_to_string(Z,bv2b(zt(c)))); }
  bk.push_back({{h1,h2},q}); return q.sat;
}
// ------------------------------------------------------------------ path condition
static u64 unMask(State&S,Expr*e,int*cnt0,int*cnt1){ Dom&d=S.dom[e->var]; int c0=0,c1=0; for(int i=0;i<256;i++) if(d.has(i)){ if(e->tab[i]&1) c1++; else c0++; } *cnt0=c0;*cnt1=c1; return 0; }
static Expr* simpRec(State&S,Expr*e,std::unordered_map<Expr*,Expr*>&memo){
  if(e->op==E_CONST||e->op==E_VAR) return e;
  if(e->op==E_UN){ if(S.fixed>>e->var&1) return eConst(e->tab[S.dom[e->var].first()],e->w); return e; }
  if(!(e->sup&S.fixed)) return e;
  auto it=memo.find(e); if(it!=memo.end()) return it->second;
  Expr*a=simpRec(S,e->a,memo),*b=e->b?simpRec(S,e->b,memo):nullptr,*c=e->c?simpRec(S,e->c,memo):nullptr;
  Expr*r=(a==e->a&&b==e->b&&c==e->c)?e:eOp(e->op,e->w,a,b,c,e->lo); memo[e]=r; return r;
}
static Expr* simpDomRec(State&S,Expr*e,std::unordered_map<Expr*,Expr*>&memo);
static Expr* simp(State&S,Expr*e){ if(e->op==E_CONST) return e;
  if(!(e->sup&~S.fixed)) return eConst(evalE(e,S.model),e->w);
  if(e->op==E_UN){ Dom&d=S.dom[e->var]; bool first=true; u64 v=0; for(int i=0;i<256;i++) if(d.has(i)){ if(first){ v=e->tab[i]; first=false; } else if(v!=e->tab[i]) return e; } return eConst(v,e->w); }
  if(e->op!=E_VAR){ std::unordered_map<Expr*,Expr*> memo; e=simpDomRec(S,e,memo); if(e->op==E_CONST) return e; if(e->op==E_UN) return simp(S,e); }
  for(size_t i=S.known.size();i-->0;) if(S.known[i].first==e) return eConst(S.known[i].second,e->w);
  if(e->w==1&&e->op==E_XOR&&isC(e->b)) for(size_t i=S.known.size();i-->0;) if(S.known[i].first==e->a) return eConst(S.known[i].second^1,1);
  return e; }
static Expr* simpDomRec(State&S,Expr*e,std::unordered_map<Expr*,Expr*>&memo){
  if(e->op==E_CONST||e->op==E_VAR) return e; if(e->op==E_UN) return simp(S,e);
  auto it=memo.find(e); if(it!=memo.end()) return it->second;
  Expr*a=simpDomRec(S,e->a,memo),*b=e->b?simpDomRec(S,e->b,memo):nullptr,*c=e->c?simpDomRec(S,e->c,memo):nullptr;
  Expr*r=(a==e->a&&b==e->b&&c==e->c)?e:eOp(e->op,e->w,a,b,c,e->lo); memo[e]=r; return r; }
static void addC(State&S,Expr*c,u64*model);
static void reduceCons(State&S,unsigned var){ // a byte domain shrank: re-simplify the residual constraints over it
  u128 bit=(u128)1<<var; bool any=false; for(auto x:S.cons) if(x->sup&bit) any=true; if(!any) return;
  std::vector<Expr*> old; old.swap(S.cons); std::vector<Expr*> units; std::unordered_map<Expr*,Expr*> memo;
  for(auto x:old){ if(!(x->sup&bit)){ S.cons.push_back(x); continue; } Expr*y=simpDomRec(S,x,memo); if(isC(y)){ if(!y->k) throw PathEnd{"infeasible"}; continue; } if(y->op==E_UN||y->op==E_AND) units.push_back(y); else S.cons.push_back(y); }
  S.coupled=0; for(auto x:S.cons) S.coupled|=x->sup;
  for(auto y:units) addC(S,y,nullptr); }
static void addC(State&S,Expr*c,u64*model){ // assumes feasibility established; model satisfies the new PC (or null: keep/repair uncoupled)
  if(isC(c)){ return; }
  if(c->op==E_AND){ addC(S,c->a,model); addC(S,c->b,model); return; }
  if(model&&model!=S.model) memcpy(S.model,model,sizeof S.model);
  if(c->op==E_UN){ Dom&d=S.dom[c->var]; for(int i=0;i<256;i++) if(d.has(i)&&!(c->tab[i]&1)) d.b[i>>6]&=~(1ULL<<(i&63)); int n=d.count(); if(n==0) throw PathEnd{"infeasible"}; if(n==1) S.fixed|=(u128)1<<c->var; if(!d.has(S.model[c->var])) S.model[c->var]=d.first(); if(S.coupled>>c->var&1) reduceCons(S,c->var); return; }
  S.cons.push_back(c); S.coupled|=c->sup; S.known.push_back({c,1}); if(c->op==E_XOR&&isC(c->b)) S.known.push_back({c->a,0});
}
// feasibility of c under PC; m receives a satisfying model
static bool feas(State&S,Expr*c,u64*m){
  if(isC(c)){ memcpy(m,S.model,sizeof S.model); return c->k&1; }
  if(c->op==E_UN&&!(S.coupled>>c->var&1)){ ST.domq++; memcpy(m,S.model,sizeof S.model); Dom&d=S.dom[c->var]; bool r=false; if(c->tab[S.model[c->var]]&1) r=true; else for(int i=0;i<256;i++) if(d.has(i)&&(c->tab[i]&1)){ m[c->var]=i; r=true; break; }
    if(OPT_xchk&&ST.domq%OPT_xchk==0){ ST.xchk++; u64 t[MAXV]; if(zcheck(S,c,t)!=r){ ST.xbad++; die("domain decision disagrees with solver"); } }
    return r; }
  if(evalE(c,S.model)&1){ memcpy(m,S.model,sizeof S.model); return true; }
  { bool neg=c->op==E_XOR&&isC(c->b); Expr*k=neg?c->a:c; std::vector<Expr*> lit; u128 seen=0; bool ok=true; std::vector<Expr*> st{k};
    while(ok&&!st.empty()){ Expr*x=st.back(); st.pop_back(); if(x->op==E_AND&&x->w==1){ st.push_back(x->a); st.push_back(x->b); } else if(x->op==E_UN&&!(x->sup&(seen|S.coupled))){ seen|=x->sup; lit.push_back(x); } else ok=false; }
    if(ok){ ST.domq++; memcpy(m,S.model,sizeof S.model); bool r=!neg; for(auto x:lit){ Dom&d=S.dom[x->var]; int w=-1; for(int i=0;i<256;i++) if(d.has(i)&&(bool)(x->tab[i]&1)!=neg){ w=i; break; } if(neg){ if(w>=0){ m[x->var]=w; r=true; break; } } else { if(w<0){ r=false; break; } m[x->var]=w; } }
      if(OPT_xchk&&ST.domq%OPT_xchk==0){ ST.xchk++; u64 t[MAXV]; if(zcheck(S,c,t)!=r) die("domain decision disagrees with solver"); } return r; } }
  return zcheck(S,c,m);
}
struct Work; static std::vector<State*> worklist;
static void pushState(State*s){ worklist.push_back(s); ST.forks++; }
static u64 conc(State&S,Expr*e0);
// number of distinct values a one-byte term takes over the current domain (capped)
static int classes(State&S,Expr*u,int cap){ Dom&d=S.dom[u->var]; u64 seen[16]; int n=0; for(int i=0;i<256;i++) if(d.has(i)){ u64 v=u->tab[i]; bool f=false; for(int k=0;k<n;k++) if(seen[k]==v){ f=true; break; } if(!f){ if(n>=cap) return n+1; seen[n++]=v; } } return n; }
static int OPT_leaf=8;
// A term over several bytes is split on its small one-byte sub-terms, so that path conditions stay per-byte sets
static Expr* splitLeaves(State&S,Expr*e0){
  Expr*e=simp(S,e0);
  while(!isC(e)&&e->op!=E_UN&&e->w<=64){ Expr*best=nullptr; int bc=99; std::vector<Expr*> st{e}; std::set<Expr*> seen; 
    while(!st.empty()){ Expr*x=st.back(); st.pop_back(); if(!x||isC(x)||!seen.insert(x).second) continue; if(x->op==E_UN){ if(S.coupled>>x->var&1) continue; int c=classes(S,x,OPT_leaf); if(c>1&&c<=OPT_leaf&&(c<bc||(c==bc&&x->var<best->var))){ best=x; bc=c; } continue; } st.push_back(x->a); st.push_back(x->b); st.push_back(x->c); if(seen.size()>20000) break; }
    if(!best) break; conc(S,best); e=simp(S,e); }
  return e; }
// make e concrete in S; other feasible values become forked states that re-execute the current instruction
static bool timeUp();
static u64 conc(State&S,Expr*e0){
  Expr*e=splitLeaves(S,e0); if(isC(e)) return e->k;
  if(e->w>64) unsupported("concretise >64 bits");
  std::vector<std::pair<u64,std::vector<u64>>> vals; 
  auto tryv=[&](u64 v,bool known_feasible_by_model){ Expr*c=eOp(E_EQ,1,e,eConst(v,e->w)); u64 m[MAXV]; if(feas(S,c,m)) vals.push_back({v,std::vector<u64>(m,m+MAXV)}); };
  if(e->op==E_UN){ std::set<u64> dv; Dom&d=S.dom[e->var]; for(int i=0;i<256;i++) if(d.has(i)) dv.insert(e->tab[i]); for(u64 v:dv) tryv(v,false); }
  else if(e->w==1){ tryv(1,false); tryv(0,false); }
  else { // enumerate
    State tmp; tmp.nvars=S.nvars; memcpy(tmp.dom,S.dom,sizeof S.dom); memcpy(tmp.vw,S.vw,sizeof S.vw); memcpy(tmp.model,S.model,sizeof S.model); tmp.coupled=~(u128)0; tmp.cons=S.cons; tmp.fixed=S.fixed;
    for(;;){ u64 v=(u64)evalE(e,tmp.model); vals.push_back({v,std::vector<u64>(tmp.model,tmp.model+MAXV)}); if(vals.size()>=OPT_vals){ degrade("more than "+std::to_string(OPT_vals)+" values of one term at "+where(S)); break; }
      Expr*ne=eNot(eOp(E_EQ,1,e,eConst(v,e->w))); tmp.cons.push_back(ne); u64 m[MAXV]; if(isC(ne)) break; Expr*tru=ne; tmp.cons.pop_back(); bool ok=zcheck(tmp,tru,m); if(!ok) break; if(timeUp()) { degrade("time limit while splitting a term"); break; } tmp.cons.push_back(ne); memcpy(tmp.model,m,sizeof m); } }
  if(vals.empty()) throw PathEnd{"infeasible"};
  ST.decisions++; S.depthDec++;
  for(size_t i=1;i<vals.size();i++){ State*n=cloneState(&S); Expr*c=eOp(E_EQ,1,e,eConst(vals[i].first,e->w)); addC(*n,c,vals[i].second.data()); if(e->op!=E_UN){ n->known.push_back({e,vals[i].first}); if(e0!=e) n->known.push_back({e0,vals[i].first}); } pushState(n); }
  Expr*c=eOp(E_EQ,1,e,eConst(vals[0].first,e->w)); addC(S,c,vals[0].second.data()); if(e->op!=E_UN){ S.known.push_back({e,vals[0].first}); if(e0!=e) S.known.push_back({e0,vals[0].first}); }
  return vals[0].first;
}
static inline u64 cv(State&S,Val&v){ if(!v.e) return v.c; u64 r=conc(S,v.e); v.c=r; v.e=nullptr; return r; }

static std::vector<u64> inputsOf(State&S,const u64*m){ std::vector<u64> r; for(auto&i:S.in) r.push_back(i.kind? i.val : m[i.var]); return r; }
static str mine; static void emit(FILE*);
static void report(State&S,const str&kind,u32 id,const str&detail,const u64*m){ if((int)viols.size()<OPT_maxviol){ viols.push_back({kind,id,detail,inputsOf(S,m)}); FILE*o=fopen(mine.c_str(),"w"); emit(o); fclose(o); } }
[[noreturn]] static void fault(State&S,const str&kind,const str&detail){ report(S,kind,0,detail,S.model); throw Stop(); }

// ------------------------------------------------------------------ memory access
static Obj* lazyGlobal(State&S,u64 id);
static u64 nGlob;
static Obj* getObj(State&S,u64 id){ u64 c=id>>6; if(c>=S.mem.size()) return nullptr; Chunk*k=S.mem[c]; Obj*o=k?k->o[id&63]:nullptr; if(!o&&id<nGlob+2) return lazyGlobal(S,id); return o; }
static void setObj(State&S,u64 id,Obj*o){ u64 c=id>>6; if(c>=S.mem.size()) S.mem.resize(c+1,nullptr); Chunk*k=S.mem[c]; if(!k){ k=(Chunk*)calloc(1,sizeof(Chunk)); k->rc=1; S.mem[c]=k; } else if(k->rc>1){ Chunk*n=(Chunk*)malloc(sizeof(Chunk)); *n=*k; n->rc=1; for(auto x:n->o) if(x) x->rc++; k->rc--; S.mem[c]=k=n; }
  decObj(k->o[id&63]); k->o[id&63]=o; }
static Obj* wrObj(State&S,u64 id){ u64 c=id>>6; Obj*o=getObj(S,id); if(!o) return nullptr; Chunk*k=S.mem[c]; if(k->rc>1||o->rc>1){ Obj*n=dupObj(o); setObj(S,id,n); return n; } return o; }
static std::vector<Obj*> gcache;
static Obj* lazyGlobal(State&S,u64 id){ if(id<2) return nullptr; Global&g=M.globals[id-2]; if(!g.alias.empty()||!g.ty) return nullptr; if(gcache.size()<=id) gcache.resize(nGlob+2,nullptr);
  if(!gcache[id]){ Obj*o=newObj(g.ty->size); if(g.init){ Lex L{g.init}; parseInit(L,g.ty,o->d); } gcache[id]=o; }
  gcache[id]->rc++; gcache[id]->konst=g.konst; setObj(S,id,gcache[id]); return gcache[id]; }
static u64 allocObj(State&S,u64 size){ u64 id=S.nextId++; if(size>(1ull<<28)) unsupported("allocation of %llu bytes",(unsigned long long)size); setObj(S,id,newObj(size)); return mkaddr(id,0); }
static Obj* access(State&S,u64 addr,u64 n,bool wr,u64*off){
  u64 id=addr>>32; u64 o=(addr&0xffffffff)-OBJBASE; if(n==0){ *off=0; }
  Obj*ob=id>=2? (wr?wrObj(S,id):getObj(S,id)):nullptr;
  if(!ob||o>ob->size||o+n>ob->size){ char b[200]; snprintf(b,200,"%s of %llu bytes at %llx (object size %lld)",wr?"write":"read",(unsigned long long)n,(unsigned long long)addr,ob?(long long)ob->size:-1LL); fault(S,"memory",str(b)+" in "+where(S)); }
  *off=o; return ob; }
static inline Expr* asE(Val v,unsigned w){ return v.e? v.e : eConst(v.c,w); }
static inline Val fromE(Expr*e){ if(isC(e)) return {e->k,nullptr}; return {0,e}; }
static Val ldScalar(Obj*o,u64 off,unsigned bytes,unsigned w){
  if(o->s){ bool any=false; for(unsigned i=0;i<bytes;i++) if(o->s[off+i]){ any=true; break; }
    if(any){ Expr*e=nullptr; for(int i=bytes-1;i>=0;i--){ Expr*b=o->s[off+i]?o->s[off+i]:eConst(o->d[off+i],8); e=e?eOp(E_CONCAT,e->w+8,e,b):b; } if(e->w>w) e=eOp(E_EXTRACT,w,e); return fromE(e); } }
  u64 v=0; memcpy(&v,o->d+off,bytes); return {v&mask64(w),nullptr}; }
static void stScalar(Obj*o,u64 off,unsigned bytes,unsigned w,Val v){
  if(v.e){ if(!o->s) o->s=(Expr**)calloc(o->size,8); Expr*e=v.e; if(e->w<bytes*8) e=eOp(E_ZEXT,bytes*8,e); for(unsigned i=0;i<bytes;i++){ Expr*b=e->w==8?e:eOp(E_EXTRACT,8,e,nullptr,nullptr,i*8); if(isC(b)){ o->s[off+i]=nullptr; o->d[off+i]=b->k; } else o->s[off+i]=b; } }
  else { memcpy(o->d+off,&v.c,bytes); if(o->s) for(unsigned i=0;i<bytes;i++) o->s[off+i]=nullptr; } }
static void loadT(State&S,u64 addr,Type*t,Val*dst){ u64 off; Obj*o=access(S,addr,t->size,false,&off);
  if(t->k==T_VEC&&t->el->k==T_INT&&t->el->w<8){ u64 bits=0; Val v=ldScalar(o,off,t->size>8?8:t->size,t->size>8?64:t->size*8); if(v.e||t->size>8) unsupported("load of sub-byte vector"); bits=v.c; for(u64 i=0;i<t->n;i++) dst[i]={(bits>>(i*t->el->w))&mask64(t->el->w),nullptr}; return; }
  for(u32 i=0;i<t->nslots;i++) { Val v=ldScalar(o,off+t->slots[i].off,t->slots[i].bytes,t->slots[i].w); if(v.e&&!(v.e->sup&~S.fixed)&&v.e->w<=64) v={(u64)evalE(v.e,S.model),nullptr}; dst[i]=v; } }
static void storeT(State&S,u64 addr,Type*t,Val*src){ u64 off; Obj*o=access(S,addr,t->size,true,&off); if(o->konst) fault(S,"memory","write to constant in "+where(S));
  if(t->k==T_VEC&&t->el->k==T_INT&&t->el->w<8){ u64 bits=0; for(u64 i=0;i<t->n;i++){ if(src[i].e) unsupported("store of sub-byte vector"); bits|=(src[i].c&mask64(t->el->w))<<(i*t->el->w); } memcpy(o->d+off,&bits,t->size); return; }
  for(u32 i=0;i<t->nslots;i++) stScalar(o,off+t->slots[i].off,t->slots[i].bytes,t->slots[i].w,src[i]); }
static void memCopy(State&S,u64 d,u64 s,u64 n){ if(!n) return; u64 so,dO; Obj*a=access(S,s,n,false,&so); Obj*b=access(S,d,n,true,&dO); a=access(S,s,n,false,&so); if(b->konst) fault(S,"memory","write to constant in "+where(S)); memmove(b->d+dO,a->d+so,n); if(a->s||b->s){ if(!b->s) b->s=(Expr**)calloc(b->size,8); if(a->s) memmove(b->s+dO,a->s+so,n*8); else memset(b->s+dO,0,n*8); } }
static str readStr(State&S,u64 a,u64 n){ u64 off; Obj*o=access(S,a,n,false,&off); str r; for(u64 i=0;i<n;i++) r+=(char)((o->s&&o->s[off+i])?'?':o->d[off+i]); return r; }
static str readC(State&S,u64 a){ str r; for(;;a++){ u64 off; Obj*o=access(S,a,1,false,&off); Val v=ldScalar(o,off,1,8); u64 c=v.e?conc(S,v.e):v.c; if(!c) return r; r+=(char)c; } }

// ------------------------------------------------------------------ interpreter
struct Ctx { State*S; Frame*F; const Inst*I; };
static inline Val* R(Frame*F,const Opnd&o){ return o.reg? F->regs+o.base : &M.pool[o.base]; }
static u64 opC(State&S,Frame*F,const Opnd&o,u32 i=0){ Val*p=R(F,o)+i; if(!p->e) return p->c; u64 r=conc(S,p->e); return r; }
static inline Val binS(State&S,EOp op,unsigned w,Val a,Val b){
  if(!a.e&&!b.e){ u64 x=a.c,y=b.c,m=mask64(w); switch(op){ case E_ADD: return {(x+y)&m,0}; case E_SUB: return {(x-y)&m,0}; case E_AND: return {x&y,0}; case E_OR: return {x|y,0}; case E_XOR: return {x^y,0}; case E_MUL: return {(x*y)&m,0};
      case E_SHL: return {y>=w?0:(x<<y)&m,0}; case E_LSHR: return {y>=w?0:x>>y,0}; 
      case E_UDIV: case E_SDIV: case E_UREM: case E_SREM: if(y==0) fault(S,"divzero",where(S)); /*fallthrough*/ default: return {(u64)evalOp(op,w,w,x,y,0,0),0}; } }
  return fromE(eOp(op,w,asE(a,w),asE(b,w))); }
static Expr* e128(Val*p,unsigned w){ return eOp(E_CONCAT,w,asE(p[1],w-64),asE(p[0],64)); }
static void put128(Val*d,Expr*e){ unsigned w=e->w; d[0]=fromE(eOp(E_EXTRACT,64,e)); if(isC(e)){ u128 v=cval(e); d[0]={(u64)v,0}; d[1]={(u64)(v>>64),0}; } else d[1]=fromE(eOp(E_EXTRACT,w-64,e,nullptr,nullptr,64)); }
static Expr* wide(Val*p,unsigned w){ if(w<=64) return asE(p[0],w); if(!p[0].e&&!p[1].e) return eConst(((u128)p[1].c<<64)|p[0].c,w); return e128(p,w); }
static void putW(Val*d,Expr*e){ if(e->w<=64) d[0]=fromE(e); else put128(d,e); }
static Val icmpS(unsigned pred,unsigned w,Expr*a,Expr*b){ switch(pred){ case P_EQ: return fromE(eOp(E_EQ,1,a,b)); case P_NE: return fromE(eNot(eOp(E_EQ,1,a,b))); case P_UGT: return fromE(eOp(E_ULT,1,b,a)); case P_UGE: return fromE(eOp(E_ULE,1,b,a)); case P_ULT: return fromE(eOp(E_ULT,1,a,b)); case P_ULE: return fromE(eOp(E_ULE,1,a,b)); case P_SGT: return fromE(eOp(E_SLT,1,b,a)); case P_SGE: return fromE(eOp(E_SLE,1,b,a)); case P_SLT: return fromE(eOp(E_SLT,1,a,b)); default: return fromE(eOp(E_SLE,1,a,b)); } }
static inline u64 icmpC(unsigned pred,unsigned w,u64 a,u64 b){ switch(pred){ case P_EQ: return a==b; case P_NE: return a!=b; case P_UGT: return a>b; case P_UGE: return a>=b; case P_ULT: return a<b; case P_ULE: return a<=b; case P_SGT: return sext64(a,w)>sext64(b,w); case P_SGE: return sext64(a,w)>=sext64(b,w); case P_SLT: return sext64(a,w)<sext64(b,w); default: return sext64(a,w)<=sext64(b,w); } }
static double fget(u64 c,unsigned w){ if(w==64){ double d; memcpy(&d,&c,8); return d; } if(w==32){ float f; u32 x=c; memcpy(&f,&x,4); return f; } _Float16 h; u16 x=c; memcpy(&h,&x,2); return (double)h; }
static u64 fput(double d,unsigned w){ if(w==64){ u64 b; memcpy(&b,&d,8); return b; } if(w==32){ float f=d; u32 b; memcpy(&b,&f,4); return b; } _Float16 h=(_Float16)d; u16 b; memcpy(&b,&h,2); return b; }
static unsigned lw(Type*t){ return t->k==T_VEC?(t->el->k==T_PTR?64:t->el->w):t->k==T_PTR?64:t->w; }


// ---- floating point over symbolic integers: conversions and comparisons as bit-vector terms
static unsigned fpM(unsigned w){ return w==64?53:w==32?24:11; } static unsigned fpB(unsigned w){ return w==64?1023:w==32?127:15; }
static Expr* fpFromInt(Expr*x,bool sg,unsigned dw){ unsigned w=x->w,Mn=fpM(dw); Expr*neg=sg?eOp(E_SLT,1,x,eConst(0,w)):eConst(0,1); Expr*m=eOp(E_ITE,w,neg,eOp(E_SUB,w,eConst(0,w),x),x);
  unsigned ww=std::max(w,dw)+1; Expr*mw=eOp(E_ZEXT,ww,m); Expr*r=eConst(0,dw);
  for(unsigned p=0;p<w;p++){ Expr*v; if(p<Mn) v=eOp(E_EXTRACT,dw,eOp(E_SHL,ww,mw,eConst(Mn-1-p,ww))); else { unsigned s=p-(Mn-1); Expr*q=eOp(E_LSHR,ww,mw,eConst(s,ww)); Expr*rem=eOp(E_AND,ww,mw,eConst(((u128)1<<s)-1,ww)); Expr*half=eConst((u128)1<<(s-1),ww); Expr*up=eOr(eOp(E_ULT,1,half,rem),eAnd(eOp(E_EQ,1,rem,half),eOp(E_EXTRACT,1,q))); v=eOp(E_EXTRACT,dw,eOp(E_ADD,ww,q,eOp(E_ZEXT,ww,up))); }
    // v holds the hidden bit at Mn-1 (or a carry above it): adding it to the exponent field minus one does the rest
    v=eOp(E_ADD,dw,v,eConst((u128)(fpB(dw)+p-1)<<(Mn-1),dw)); r=eOp(E_ITE,dw,eOp(E_ULT,1,m,eConst((u128)1<<p,w)),r,v); }
  return eOp(E_ITE,dw,neg,eOp(E_OR,dw,r,eConst((u128)1<<(dw-1),dw)),r); }
static Expr* fpNan(Expr*x){ unsigned w=x->w; return eOp(E_ULT,1,eConst((((u128)1<<(w-fpM(w)))-1)<<(fpM(w)-1),w),eOp(E_AND,w,x,eConst(((u128)1<<(w-1))-1,w))); }
static Expr* fpKey(Expr*x){ unsigned w=x->w; Expr*a=eOp(E_AND,w,x,eConst(((u128)1<<(w-1))-1,w)); return eOp(E_ITE,w,eOp(E_SLT,1,x,eConst(0,w)),eOp(E_SUB,w,eConst(0,w),a),a); }
static Expr* fpCmp(const str&p,Expr*a,Expr*b){ Expr*un=eOr(fpNan(a),fpNan(b)); if(p=="ord") return eNot(un); if(p=="uno") return un; if(p=="true") return eConst(1,1); if(p=="false") return eConst(0,1); str q=p.substr(1); Expr*x=fpKey(a),*y=fpKey(b); Expr*eq=eOp(E_EQ,1,x,y),*lt=eOp(E_SLT,1,x,y); Expr*c=q=="eq"?eq:q=="ne"?eNot(eq):q=="lt"?lt:q=="le"?eOr(lt,eq):q=="gt"?eNot(eOr(lt,eq)):eNot(lt); return p[0]=='u'?eOr(un,c):eAnd(eNot(un),c); }
// saturating conversion to an integer of width w (NaN gives 0)
static Expr* fpToInt(Expr*x,bool sg,unsigned w){ unsigned fw=x->w,Mn=fpM(fw),B=fpB(fw); unsigned ww=std::max(fw,w)+1; Expr*neg=eOp(E_SLT,1,x,eConst(0,fw)); Expr*ex=eOp(E_LSHR,fw,eOp(E_AND,fw,x,eConst(((u128)1<<(fw-1))-1,fw)),eConst(Mn-1,fw)); Expr*mant=eOp(E_ZEXT,ww,eOp(E_OR,fw,eOp(E_AND,fw,x,eConst(((u128)1<<(Mn-1))-1,fw)),eConst((u128)1<<(Mn-1),fw)));
  unsigned top=sg?w-1:w; Expr*mag=eConst(0,w); for(unsigned p=0;p<top;p++){ Expr*v=p<Mn?eOp(E_LSHR,ww,mant,eConst(Mn-1-p,ww)):eOp(E_SHL,ww,mant,eConst(p-(Mn-1),ww)); mag=eOp(E_ITE,w,eOp(E_EQ,1,ex,eConst(B+p,fw)),eOp(E_EXTRACT,w,v),mag); }
  Expr*big=eNot(eOp(E_ULT,1,ex,eConst(B+top,fw))); Expr*pos=eOp(E_ITE,w,big,eConst(sg?((u128)1<<(w-1))-1:~(u128)0,w),mag); Expr*ng=sg?eOp(E_ITE,w,big,eConst((u128)1<<(w-1),w),eOp(E_SUB,w,eConst(0,w),mag)):eConst(0,w); return eOp(E_ITE,w,fpNan(x),eConst(0,w),eOp(E_ITE,w,neg,ng,pos)); }

static Frame* top(State&S){ Frame*f=S.st.back(); if(f->rc>1){ f->rc--; f=dupFrame(f); S.st.back()=f; } return f; }
static void enterBlock(State&S,Frame*F,u32 bb){ F->prev=F->bb; F->bb=bb; F->pc=0; Block&B=F->f->blocks[bb]; if(B.nphi){ 
    static Val tmp[8192]; u32 n=0; for(u32 i=0;i<B.nphi;i++){ Inst&I=B.ins[i]; int k=-1; for(size_t j=0;j<I.bb.size();j++) if(I.bb[j]==F->prev){ k=j; break; } if(k<0) die("phi"); Val*p=R(F,I.o[k]); for(u32 q=0;q<I.ty->nslots;q++) tmp[n++]=p[q]; }
    n=0; for(u32 i=0;i<B.nphi;i++){ Inst&I=B.ins[i]; for(u32 q=0;q<I.ty->nslots;q++) F->regs[I.dst+q]=tmp[n++]; } F->pc=B.nphi; } }
static void pushFrame(State&S,Func*f,const Inst*I,Val*args,u32 nargs){ M.parseFunc(f); f->execs++; if(S.st.size()>OPT_depth) fault(S,"recursion","call depth over "+std::to_string(OPT_depth)+" in "+where(S)); Frame*F=newFrame(f); F->callI=I; u32 k=0; for(auto&p:f->params) for(u32 q=0;q<p.ty->nslots;q++){ if(k<nargs) F->regs[p.base+q]=args[k++]; } if(f->framesz) F->aobj=allocObj(S,f->framesz+16); S.st.push_back(F); if(S.st.size()>ST.maxdepth) ST.maxdepth=S.st.size(); }
static void popFrame(State&S){ Frame*F=S.st.back(); if(F->aobj) setObj(S,F->aobj>>32,nullptr); if(F->extra) for(u64 a:*F->extra) setObj(S,a>>32,nullptr); S.st.pop_back(); decFrame(F); }
static void callExt(State&S,Frame*F,const Inst&I,Func*f,u32 a0);
static bool pathDone(State&S); 
static void endPath(State&S);

static Expr* loadUnTable(State&S,Expr*ae,unsigned bytes,unsigned w,u64 off0){ // ae: UN address; all in-domain addresses must hit concrete bytes
  Dom&d=S.dom[ae->var]; u64 tab[256]; memset(tab,0,sizeof tab); 
  for(int i=0;i<256;i++) if(d.has(i)){ u64 a=ae->tab[i]+off0; u64 id=a>>32,o=(a&0xffffffff)-OBJBASE; Obj*ob=id>=2?getObj(S,id):nullptr; if(!ob||o>ob->size||o+bytes>ob->size) return nullptr; Val v=ldScalar(ob,o,bytes,w); if(v.e){ if(v.e->op==E_UN&&v.e->var==ae->var) tab[i]=v.e->tab[i]; else return nullptr; } else tab[i]=v.c; }
  return eUn(ae->var,w,tab); }

static void run1(State&S,Frame*F,const Inst&I){
  switch(I.op){
    case I_BIN: { unsigned w=lw(I.ty); Val*a=R(F,I.o[0]),*b=R(F,I.o[1]),*d=F->regs+I.dst; if(w<=64){ for(u32 i=0;i<I.ty->nslots;i++) d[i]=binS(S,(EOp)I.sub,w,a[i],b[i]); }
      else { Expr*x=wide(a,w),*y=wide(b,w); if((I.sub==E_UDIV||I.sub==E_SDIV||I.sub==E_UREM||I.sub==E_SREM)&&isC(y)&&cval(y)==0) fault(S,"divzero",where(S)); put128(d,eOp((EOp)I.sub,w,x,y)); } break; }
    case I_ICMP: { unsigned w=lw(I.sty); Val*a=R(F,I.o[0]),*b=R(F,I.o[1]),*d=F->regs+I.dst; u32 n=I.ty->nslots; if(w>64){ d[0]=icmpS(I.sub,w,wide(a,w),wide(b,w)); break; }
      for(u32 i=0;i<n;i++){ if(!a[i].e&&!b[i].e) d[i]={icmpC(I.sub,w,a[i].c,b[i].c),nullptr}; else d[i]=icmpS(I.sub,w,asE(a[i],w),asE(b[i],w)); } break; }
    case I_CAST: { Type*s=I.sty,*t=I.ty; unsigned sw=lw(s),dw=lw(t); Val*a=R(F,I.o[0]),*d=F->regs+I.dst;
      switch(I.sub){
        case C_TRUNC: if(sw>64){ putW(d,eOp(E_EXTRACT,dw,wide(a,sw))); if(dw<=64) d[0].c&=mask64(dw); } else for(u32 i=0;i<t->nslots;i++) d[i]=a[i].e?fromE(eOp(E_EXTRACT,dw,a[i].e)):Val{a[i].c&mask64(dw),nullptr}; break;
        case C_ZEXT: if(dw>64) putW(d,eOp(E_ZEXT,dw,wide(a,sw))); else for(u32 i=0;i<t->nslots;i++) d[i]=a[i].e?fromE(eOp(E_ZEXT,dw,a[i].e)):a[i]; break;
        case C_SEXT: if(dw>64) putW(d,eOp(E_SEXT,dw,wide(a,sw))); else for(u32 i=0;i<t->nslots;i++) d[i]=a[i].e?fromE(eOp(E_SEXT,dw,a[i].e)):Val{(u64)sext64(a[i].c,sw)&mask64(dw),nullptr}; break;
        case C_PTRTOINT: case C_INTTOPTR: for(u32 i=0;i<t->nslots;i++){ unsigned x=a[i].e?a[i].e->w:0; d[i]=a[i].e?(x==dw?a[i]:x<dw?fromE(eOp(E_ZEXT,dw,a[i].e)):fromE(eOp(E_EXTRACT,dw,a[i].e))):Val{a[i].c&mask64(dw),nullptr}; } break;
        case C_BITCAST: if(s->nslots==t->nslots&&(s->nslots==1||sw==dw)) for(u32 i=0;i<t->nslots;i++) d[i]=a[i];
          else { // regroup bits
            unsigned total=s->k==T_VEC? s->n*sw : sw; if(total>1024) unsupported("bitcast");
            std::vector<Val> bits; // byte-or-bit granules
            unsigned ssl=s->k==T_VEC?sw:64, dsl=t->k==T_VEC?dw:64; unsigned g=std::min(std::min(ssl,dsl),std::min(sw,dw)); (void)ssl;
            unsigned done=0; for(u32 i=0;i<s->nslots;i++){ unsigned w=s->slots[i].w; for(unsigned k=0;k<w;k+=g){ unsigned gw=std::min(g,w-k); bits.push_back(a[i].e?fromE(eOp(E_EXTRACT,gw,a[i].e,nullptr,nullptr,k)):Val{(a[i].c>>k)&mask64(gw),nullptr}); done+=gw; } }
            u32 bi=0; std::vector<Val> out; for(u32 i=0;i<t->nslots;i++){ unsigned w=t->slots[i].w; Expr*e=nullptr; u64 c=0; bool sy=false; u32 nb=w/g; for(u32 k=0;k<nb;k++){ if(bits[bi+k].e) sy=true; } if(sy){ for(int k=nb-1;k>=0;k--){ Expr*b=asE(bits[bi+k],g); e=e?eOp(E_CONCAT,e->w+g,e,b):b; } out.push_back(fromE(e)); } else { for(u32 k=0;k<nb;k++) c|=bits[bi+k].c<<(k*g); out.push_back({c,nullptr}); } bi+=nb; }
            for(u32 i=0;i<t->nslots;i++) d[i]=out[i]; } break;
        default: { if(a[0].e&&s->nslots==1&&t->nslots==1&&sw<=64&&dw<=64){ if(I.sub==C_SITOFP||I.sub==C_UITOFP){ d[0]=fromE(fpFromInt(a[0].e,I.sub==C_SITOFP,dw)); break; } if(I.sub==C_FPTOSI||I.sub==C_FPTOUI){ d[0]=fromE(fpToInt(a[0].e,I.sub==C_FPTOSI,dw)); break; } }
          u64 x=opC(S,F,I.o[0]); double v=fget(x,sw); u64 r=0; switch(I.sub){ case C_FPTRUNC: case C_FPEXT: r=fput(v,dw); break; case C_FPTOUI: r=(u64)v&mask64(dw); break; case C_FPTOSI: r=(u64)(i64)v&mask64(dw); break;
            case C_UITOFP: r=dw==32?fput((float)x,32):fput((double)x,dw); break; case C_SITOFP: r=dw==32?fput((float)sext64(x,sw),32):fput((double)sext64(x,sw),dw); break; } d[0]={r,nullptr}; } }
      break; }
    case I_SELECT: { Val*c=R(F,I.o[0]),*a=R(F,I.o[1]),*b=R(F,I.o[2]),*d=F->regs+I.dst; bool vec=I.o[0].ty->k==T_VEC; if(!vec){ Val cc=c[0]; if(cc.e){ Expr*s=simp(S,cc.e); if(isC(s)) cc={s->k,nullptr}; }
        if(!cc.e){ Val*s=cc.c?a:b; for(u32 i=0;i<I.ty->nslots;i++) d[i]=s[i]; } else for(u32 i=0;i<I.ty->nslots;i++){ unsigned w=I.ty->slots[i].w; d[i]=fromE(eOp(E_ITE,w,cc.e,asE(a[i],w),asE(b[i],w))); } }
      else { u32 per=I.ty->nslots/I.o[0].ty->nslots; for(u32 i=0;i<I.ty->nslots;i++){ Val cc=c[i/per]; unsigned w=I.ty->slots[i].w; if(!cc.e) d[i]=cc.c?a[i]:b[i]; else d[i]=fromE(eOp(E_ITE,w,cc.e,asE(a[i],w),asE(b[i],w))); } } break; }
    case I_FREEZE: { Val*a=R(F,I.o[0]); for(u32 i=0;i<I.ty->nslots;i++) F->regs[I.dst+i]=a[i]; break; }
    case I_ALLOCA: { if(I.im[1]) F->regs[I.dst]={F->aobj+I.im[1]-1,nullptr}; else { u64 n=I.o.empty()?1:opC(S,F,I.o[0]); u64 a=allocObj(S,I.im[0]*n); if(!F->extra) F->extra=new std::vector<u64>; F->extra->push_back(a); F->regs[I.dst]={a,nullptr}; } break; }
    case I_LOAD: { Val*p=R(F,I.o[0]); if(p->e){ Expr*e=simp(S,p->e); if(isC(e)){ loadT(S,e->k,I.ty,F->regs+I.dst); break; }
        if(e->op==E_UN&&I.ty->nslots<=2&&I.ty->nslots&&I.ty->slots[0].off!=0xffffffff){ Expr*r[2]; bool ok=true; for(u32 i=0;i<I.ty->nslots&&ok;i++){ r[i]=loadUnTable(S,e,I.ty->slots[i].bytes,I.ty->slots[i].w,I.ty->slots[i].off); if(!r[i]) ok=false; } if(ok){ for(u32 i=0;i<I.ty->nslots;i++) F->regs[I.dst+i]=fromE(r[i]); break; } }
        u64 a=conc(S,p->e); loadT(S,a,I.ty,F->regs+I.dst); break; }
      loadT(S,p->c,I.ty,F->regs+I.dst); break; }
    case I_STORE: { u64 a=opC(S,F,I.o[1]); storeT(S,a,I.sty,R(F,I.o[0])); break; }
    case I_GEP: { Val v=*R(F,I.o[0]); for(size_t i=0;i<I.im.size();i++){ Val x=*R(F,I.o[i+1]); unsigned w=I.o[i+1].ty->w; if(!x.e) x.c=(u64)sext64(x.c,w); else if(w<64) x=fromE(eOp(E_SEXT,64,x.e)); 
          if(I.im[i]!=1) x=binS(S,E_MUL,64,x,{I.im[i],nullptr}); v=binS(S,E_ADD,64,v,x); } if(I.coff) v=binS(S,E_ADD,64,v,{(u64)I.coff,nullptr}); F->regs[I.dst]=v; break; }
    case I_EXTRACTVALUE: { Val*a=R(F,I.o[0])+I.im[0]; for(u32 i=0;i<I.ty->nslots;i++) F->regs[I.dst+i]=a[i]; break; }
    case I_INSERTVALUE: { Val*a=R(F,I.o[0]),*b=R(F,I.o[1]); Val*d=F->regs+I.dst; for(u32 i=0;i<I.ty->nslots;i++) d[i]=a[i]; for(u32 i=0;i<I.im[1];i++) d[I.im[0]+i]=b[i]; break; }
    case I_EXTRACTELT: { u64 ix=opC(S,F,I.o[1]); u32 per=I.ty->nslots; Val*a=R(F,I.o[0])+ix*per; if(ix>=I.sty->n) break; for(u32 i=0;i<per;i++) F->regs[I.dst+i]=a[i]; break; }
    case I_INSERTELT: { u64 ix=opC(S,F,I.o[2]); Val*a=R(F,I.o[0]),*b=R(F,I.o[1]); Val*d=F->regs+I.dst; u32 per=I.ty->el->nslots; for(u32 i=0;i<I.ty->nslots;i++) d[i]=a[i]; if(ix<I.ty->n) for(u32 i=0;i<per;i++) d[ix*per+i]=b[i]; break; }
    case I_SHUFFLE: { Val*a=R(F,I.o[0]),*b=R(F,I.o[1]); u32 per=I.sty->el->nslots; u64 n=I.sty->n; for(size_t i=0;i<I.im.size();i++){ u64 m=(u32)I.im[i]; Val*s=m<n?a+m*per:b+(m-n)*per; if(m>=2*n){ for(u32 q=0;q<per;q++) F->regs[I.dst+i*per+q]={0,nullptr}; continue; } for(u32 q=0;q<per;q++) F->regs[I.dst+i*per+q]=s[q]; } break; }
    case I_FCMP: { { Val*p=R(F,I.o[0]),*q=R(F,I.o[1]); if((p->e||q->e)&&I.ty->nslots==1&&I.sty->w<=64){ F->regs[I.dst]=fromE(fpCmp(I.note,asE(*p,I.sty->w),asE(*q,I.sty->w))); break; } } double a=fget(opC(S,F,I.o[0]),I.sty->w),b=fget(opC(S,F,I.o[1]),I.sty->w); bool un=std::isnan(a)||std::isnan(b); bool r=false; const str&p=I.note; if(p=="ord") r=!un; else if(p=="uno") r=un; else if(p=="true") r=true; else if(p=="false") r=false; else { str q=p.substr(1); bool c=q=="eq"?a==b:q=="ne"?a!=b:q=="lt"?a<b:q=="le"?a<=b:q=="gt"?a>b:a>=b; r=p[0]=='u'?(un||c):(!un&&c); } F->regs[I.dst]={r,nullptr}; break; }
    case I_FBIN: { unsigned w=lw(I.ty); for(u32 i=0;i<I.ty->nslots;i++){ double a=fget(opC(S,F,I.o[0],i),w),b=fget(opC(S,F,I.o[1],i),w),r; switch(I.sub){ case F_ADD: r=w==32?(float)a+(float)b:a+b; break; case F_SUB: r=w==32?(float)a-(float)b:a-b; break; case F_MUL: r=w==32?(float)a*(float)b:a*b; break; case F_DIV: r=w==32?(float)a/(float)b:a/b; break; default: r=fmod(a,b); } F->regs[I.dst+i]={fput(r,w),nullptr}; } break; }
    case I_FNEG: { { Val*p=R(F,I.o[0]); if(p->e&&I.ty->nslots==1){ unsigned w=lw(I.ty); F->regs[I.dst]=fromE(eOp(E_XOR,w,p->e,eConst((u128)1<<(w-1),w))); break; } } unsigned w=lw(I.ty); for(u32 i=0;i<I.ty->nslots;i++){ u64 x=opC(S,F,I.o[0],i); F->regs[I.dst+i]={x^(1ULL<<(w-1)),nullptr}; } break; }
    case I_FENCE: break;
    case I_CMPXCHG: { u64 a=opC(S,F,I.o[0]); Val old[2]; loadT(S,a,I.sty,old); u64 e=opC(S,F,I.o[1]); u64 o=cv(S,old[0]); bool ok=o==e; if(ok) storeT(S,a,I.sty,R(F,I.o[2])); F->regs[I.dst]={o,nullptr}; F->regs[I.dst+1]={ok,nullptr}; break; }
    case I_ATOMICRMW: { u64 a=opC(S,F,I.o[0]); Val old[2]; loadT(S,a,I.ty,old); Val x=*R(F,I.o[1]); unsigned w=lw(I.ty); Val n; const str&k=I.note; if(k=="xchg") n=x; else if(k=="add") n=binS(S,E_ADD,w,old[0],x); else if(k=="sub") n=binS(S,E_SUB,w,old[0],x); else if(k=="and") n=binS(S,E_AND,w,old[0],x); else if(k=="or") n=binS(S,E_OR,w,old[0],x); else if(k=="xor") n=binS(S,E_XOR,w,old[0],x); else if(k=="nand"){ n=binS(S,E_XOR,w,binS(S,E_AND,w,old[0],x),{mask64(w),nullptr}); }
      else { u64 o=cv(S,old[0]),y=opC(S,F,I.o[1]); bool t=k=="max"?sext64(o,w)>sext64(y,w):k=="min"?sext64(o,w)<sext64(y,w):k=="umax"?o>y:k=="umin"?o<y:(unsupported("atomicrmw %s",k.c_str()),false); n={t?o:y,nullptr}; }
      storeT(S,a,I.ty,&n); F->regs[I.dst]=old[0]; break; }
    case I_BAD: unsupported("instruction: %s",I.note.c_str());
    case I_LANDINGPAD: case I_RESUME: unsupported("unwinding reached");
    default: unsupported("op %d",I.op);
  }
}
#include "builtins.h"
// run until the path ends or the deadline passes
static bool timeUp(){ return now()-T0>OPT_time; }
static volatile bool *stopFlag=nullptr;
static bool stepState(State*Sp,bool untilFork){   // true: still alive (only with untilFork)
  State&S=*Sp; u64 cnt=0;
  try{
    for(;;){
      if(S.st.empty()) break;
      Frame*F=top(S); Func*f=F->f;
      const Inst&I=f->blocks[F->bb].ins[F->pc];
      S.steps++; ST.instrs++;
      if((++cnt&0xfff)==0){ if(timeUp()){ if(incomplete.empty()) incomplete="time limit"; killState(Sp); return false; } if(stopFlag&&*stopFlag){ killState(Sp); return false; } if(S.steps>OPT_steps) fault(S,"steps","more than "+std::to_string(OPT_steps)+" instructions in "+where(S)); }
      switch(I.op){
        case I_BR: enterBlock(S,F,I.bb[0]); break;
        case I_CONDBR: { Val*c=R(F,I.o[0]); u64 v=c->e?conc(S,c->e):c->c; F=top(S); enterBlock(S,F,I.bb[(v&1)?0:1]); break; }
        case I_SWITCH: { Val c=*R(F,I.o[0]); unsigned w=I.sty->w; u32 tgt=I.bb[0];
          if(c.e){ Expr*e=splitLeaves(S,c.e); if(isC(e)) c={e->k,nullptr}; else {
              if(w>64) unsupported("wide switch");
              std::map<u32,Expr*> conds; Expr*none=eConst(1,1); for(size_t i=0;i<I.im.size();i++){ Expr*q=eOp(E_EQ,1,e,eConst(I.im[i],w)); auto&x=conds[I.bb[i+1]]; x=x?eOr(x,q):q; none=eAnd(none,eNot(q)); } { auto&x=conds[I.bb[0]]; x=x?eOr(x,none):none; }
              struct Alt{u32 bb; Expr*c; std::vector<u64> m;}; std::vector<Alt> alts; bool forced=false;
              for(auto&p:conds){ Expr*q=simp(S,p.second); u64 m[MAXV]; if(isC(q)){ if(q->k){ alts.clear(); alts.push_back({p.first,q,std::vector<u64>(S.model,S.model+MAXV)}); forced=true; break; } continue; } if(feas(S,q,m)) alts.push_back({p.first,q,std::vector<u64>(m,m+MAXV)}); }
              (void)forced; if(alts.empty()) throw PathEnd{"infeasible"};
              ST.decisions++; S.depthDec++;
              for(size_t i=1;i<alts.size();i++){ State*n=cloneState(&S); addC(*n,alts[i].c,alts[i].m.data()); Frame*nf=top(*n); enterBlock(*n,nf,alts[i].bb); pushState(n); }
              addC(S,alts[0].c,alts[0].m.data()); F=top(S); enterBlock(S,F,alts[0].bb); break; } }
          for(size_t i=0;i<I.im.size();i++) if(I.im[i]==c.c){ tgt=I.bb[i+1]; break; } enterBlock(S,F,tgt); break; }
        case I_RET: { Val rv[64]; u32 n=0; if(!I.o.empty()){ Val*p=R(F,I.o[0]); n=I.o[0].ty->nslots; if(n>64) unsupported("ret"); for(u32 i=0;i<n;i++) rv[i]=p[i]; } const Inst*ci=F->callI; popFrame(S); if(S.st.empty()){ break; } if(!ci){ break; } Frame*C=top(S); for(u32 i=0;i<n;i++) C->regs[ci->dst+i]=rv[i]; if(!ci->bb.empty()) enterBlock(S,C,ci->bb[0]); else C->pc++; break; }
        case I_UNREACHABLE: fault(S,"unreachable","unreachable instruction in "+where(S));
        case I_CALL: { Func*cal=I.callee; u32 a0=0; if(I.im[0]==2){ // inline asm
              if(I.note.find("cpuid")!=str::npos||I.note.empty()||I.note.find("xgetbv")!=str::npos){ for(u32 i=0;i<I.ty->nslots;i++) F->regs[I.dst+i]={0,nullptr}; F->pc++; break; } unsupported("asm %s",I.note.c_str()); }
          if(!cal){ u64 a=opC(S,F,I.o[0]); F=top(S); cal=M.fnByAddr(a); a0=1; if(!cal) fault(S,"memory","call through bad pointer in "+where(S)); }
          if(cal->intr==-1) cal->intr=builtinId(cal);
          if(cal->intr>0||cal->ext){ u64 before=S.st.size(); bool adv=callBuiltin(S,F,I,cal,a0); if(adv&&S.st.size()==before){ F=top(S); if(!I.bb.empty()) enterBlock(S,F,I.bb[0]); else F->pc++; } break; }
          { static Val args[4096]; u32 n=0; for(size_t i=a0;i<I.o.size();i++){ Type*t=I.o[i].ty; if(t==M.tOther) continue; Val*p=R(F,I.o[i]); for(u32 q=0;q<t->nslots;q++) args[n++]=p[q]; } pushFrame(S,cal,&I,args,n); } break; }
        default: run1(S,F,I); F=S.st.back(); if(F->rc>1) F=top(S); F->pc++;
      }
      if(untilFork&&!worklist.empty()) return !S.st.empty()? true : (endPath(S),killState(Sp),false);
    }
    endPath(S); killState(Sp); return false;
  } catch(PathEnd&p){ ST.assumed++; if(p.why=="assume"){ /* constrained away */ } killState(Sp); }
  catch(Stop&){ killState(Sp); if((int)viols.size()>=OPT_maxviol&&stopFlag) *stopFlag=true; }
  return false;
}
static void endPath(State&S){
  ST.paths++; for(u32 c:S.covers) coverHits[c]++;
  // exact number of byte assignments on this path
  double w=1; bool exact=S.cons.empty(); for(u32 i=0;i<S.nvars;i++){ if(S.vw[i]!=8) exact=false; else w*=S.dom[i].count(); } if(exact) pathWeight+=w; else weightExact=false;
  // reservoir of samples
  static u64 seen=0; seen++; u64 k=samples.size(); bool take=k<OPT_samples; if(!take){ u64 j=rnd()%seen; if(j<OPT_samples){ take=true; k=j; } }
  if(take){ u64 m[MAXV]; memcpy(m,S.model,sizeof m); for(u32 i=0;i<S.nvars;i++) if(S.vw[i]==8&&!(S.coupled>>i&1)){ int c=S.dom[i].count(),r=rnd()%c; for(int v=0;v<256;v++) if(S.dom[i].has(v)&&r--==0){ m[i]=v; break; } }
    for(auto c:S.cons) if(!(evalE(c,m)&1)) die("sample model does not satisfy the path condition");
    Sample s; s.inputs=inputsOf(S,m); for(auto&v:S.trace) s.trace.push_back(v.e?(u64)evalE(v.e,m):v.c); if(k==samples.size()) samples.push_back(s); else samples[k]=s; }
}
static str jstr(const str&s){ str r="\""; for(char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if((u8)c<32||(u8)c>126){ char b[8]; snprintf(b,8,"\\u%04x",(u8)c); r+=b; } else r+=c; } return r+"\""; }
static str jarr(const std::vector<u64>&v){ str r="["; for(size_t i=0;i<v.size();i++){ if(i) r+=","; r+=std::to_string(v[i]); } return r+"]"; }
static void emit(FILE*o){
  fprintf(o,"{\"paths\":%llu,\"assumed\":%llu,\"decisions\":%llu,\"forks\":%llu,\"instrs\":%llu,\"z3q\":%llu,\"z3sat\":%llu,\"z3unsat\":%llu,\"cache_hits\":%llu,\"asserts\":%llu,\"asserts_const\":%llu,\"asserts_query\":%llu,\"domain_decisions\":%llu,\"crosschecked\":%llu,\"max_depth\":%llu,\"lia\":%llu,\"z3_s\":%.3f,\"weight\":%.17g,\"weight_exact\":%s,\"rss_mb\":%ld,\n",(unsigned long long)ST.paths,(unsigned long long)ST.assumed,(unsigned long long)ST.decisions,(unsigned long long)ST.forks,(unsigned long long)ST.instrs,(unsigned long long)ST.z3q,(unsigned long long)ST.z3sat,(unsigned long long)ST.z3unsat,(unsigned long long)ST.cacheHits,(unsigned long long)ST.asserts,(unsigned long long)ST.assertsConst,(unsigned long long)ST.assertsQ,(unsigned long long)ST.domq,(unsigned long long)ST.xchk,(unsigned long long)ST.maxdepth,(unsigned long long)ST.liaq,ST.z3t,pathWeight,weightExact?"true":"false",[]{ struct rusage r; getrusage(RUSAGE_SELF,&r); return r.ru_maxrss/1024; }());
  fprintf(o,"\"incomplete\":%s,\n",jstr(incomplete.empty()?partial:incomplete).c_str()); fprintf(o,"\"paths_given_up\":%llu,\n",(unsigned long long)cut); fprintf(o,"\"covers\":{"); bool f=true; for(auto&c:coverHits){ fprintf(o,"%s\"%u\":%llu",f?"":",",c.first,(unsigned long long)c.second); f=false; }
  fprintf(o,"},\n\"viols\":["); f=true; for(auto&v:viols){ fprintf(o,"%s{\"kind\":%s,\"id\":%u,\"detail\":%s,\"inputs\":%s}",f?"":",\n",jstr(v.kind).c_str(),v.id,jstr(v.detail).c_str(),jarr(v.inputs).c_str()); f=false; }
  fprintf(o,"],\n\"samples\":["); f=true; for(auto&s:samples){ fprintf(o,"%s{\"inputs\":%s,\"trace\":%s}",f?"":",\n",jarr(s.inputs).c_str(),jarr(s.trace).c_str()); f=false; }
  fprintf(o,"],\n\"functions\":["); f=true; for(auto fn:M.funcs) if(fn->execs){ fprintf(o,"%s[%s,%llu]",f?"":",",jstr(fn->name).c_str(),(unsigned long long)fn->execs); f=false; } fprintf(o,"]}\n");
}
int main(int argc,char**argv){
  str mod,entry,out; 
  for(int i=1;i<argc;i++){ str a=argv[i]; auto nx=[&](){ return str(argv[++i]); };
    if(a=="--eager") OPT_eager=true; else if(a=="-m") mod=nx(); else if(a=="-e") entry=nx(); else if(a=="-o") out=nx(); else if(a=="-t") OPT_time=atof(nx().c_str()); else if(a=="-j") OPT_jobs=atoi(nx().c_str()); else if(a=="--steps") OPT_steps=strtoull(nx().c_str(),0,10); else if(a=="--depth") OPT_depth=atoi(nx().c_str()); else if(a=="--samples") OPT_samples=atoi(nx().c_str()); else if(a=="--seed") OPT_seed=strtoull(nx().c_str(),0,10); else if(a=="--maxviol") OPT_maxviol=atoi(nx().c_str()); else if(a=="--xchk") OPT_xchk=atoi(nx().c_str()); else if(a=="-v") OPT_v=true; else if(a=="-p") OPT_params.push_back(strtoll(nx().c_str(),0,10)); else die("arg %s",a.c_str()); }
  T0=now(); rng^=OPT_seed*0x9e3779b97f4a7c15ULL; for(int i=0;i<8;i++) rnd();
  M.load(mod.c_str()); nGlob=M.globals.size(); if(OPT_v) fprintf(stderr,"loaded %zu functions %zu globals %.2fs\n",M.funcs.size(),M.globals.size(),now()-T0);
  { char b[1]; (void)b; struct rlimit rl={512u<<20,RLIM_INFINITY}; (void)rl; }
  auto it=M.fidx.find(entry); if(it==M.fidx.end()) die("no entry %s",entry.c_str());
  State*S=new State; S->nextId=nGlob+2; memset(S->dom,0,sizeof S->dom); memset(S->model,0,sizeof S->model); memset(S->vw,0,sizeof S->vw); S->mem.resize((nGlob+2)/64+1,nullptr);
  pushFrame(*S,it->second,nullptr,nullptr,0);
  static bool localStop=false; stopFlag=(volatile bool*)mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); (void)localStop;
  volatile u64* next=(volatile u64*)((char*)stopFlag+64); *next=0;
  // depth-first; whenever a worker slot is free, half of the pending states move to a forked process
  volatile int* slots=(volatile int*)((char*)stopFlag+128); *slots=OPT_jobs-1; *next=1;
  prctl(PR_SET_CHILD_SUBREAPER,1);
  zinit(); worklist.push_back(S); bool root=true; double lastFork=now(); mine=out+".0";
  while(!worklist.empty()&&!*stopFlag&&incomplete.empty()){
    State*x=worklist.back(); worklist.pop_back(); stepState(x,false);
    if(worklist.size()>=2&&*slots>0&&now()-lastFork>0.01){
      if(__sync_fetch_and_sub((int*)slots,1)<=0){ __sync_fetch_and_add((int*)slots,1); continue; }
      u64 id=__sync_fetch_and_add((u64*)next,1); std::vector<State*> a,b; for(size_t i=0;i<worklist.size();i++) (i%2?b:a).push_back(worklist[i]);
      pid_t p=fork(); if(p<0) die("fork"); lastFork=now();
      if(p==0){ root=false; mine=out+"."+std::to_string(id); ST=Stats(); viols.clear(); samples.clear(); partial.clear(); cut=0; coverHits.clear(); pathWeight=0; weightExact=true; for(auto f:M.funcs) f->execs=0; rng^=(id+1)*0x9e3779b97f4a7c15ULL; for(int i=0;i<8;i++) rnd(); worklist=a; }
      else worklist=b; } }
  if(!incomplete.empty()) *stopFlag=true;
  { FILE*o=fopen(mine.c_str(),"w"); emit(o); fclose(o); }
  __sync_fetch_and_add((int*)slots,1);
  if(!root) _exit(0);
  { int bad=0,st; while(wait(&st)>0) if(!WIFEXITED(st)||WEXITSTATUS(st)) bad++; if(bad){ fprintf(stderr,"rsx: %d workers failed\n",bad); _exit(4); } }
  if(OPT_v) fprintf(stderr,"done %.2fs\n",now()-T0);
  fflush(0); _exit(0);
}
