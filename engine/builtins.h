// harness primitives, LLVM intrinsics and the libc calls std makes
enum { B_NONE=0, B_NOP=1, B_PANIC, B_SYM_U8, B_SYM_BYTES, B_SYM_BYTES_IN, B_SYM_U32, B_SYM_CHOICE, B_SYM_ASSUME, B_SYM_ASSERT, B_SYM_COVER, B_SYM_TRACE, B_SYM_PARAM, B_SYM_FILE, B_SYM_U8_IN, B_SYM_PRINT, B_SYM_EXPECT, B_SYM_ISO_BEGIN, B_SYM_ISO_END,
  B_MEMCPY, B_MEMSET, B_MEMCMP, B_BCMP, B_STRLEN, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMALIGN, B_ABORT, B_RET0, B_RETM1, B_SYSCALL, B_GETRANDOM, B_ERRNO, B_OPEN, B_READ, B_CLOSE, B_FSTAT, B_STRERROR, B_LSEEK, B_WRITE, B_WRITEV, B_KEYCREATE, B_KEYGET, B_KEYSET, B_GETENV, B_MEMCHR, B_EXIT,
  B_MIN, B_OVF, B_SAT, B_CTZ, B_CLZ, B_POP, B_BSWAP, B_BITREV, B_ABS, B_FSH, B_CMP3, B_IDENT, B_ZERO, B_ONES, B_FABS, B_FTOI, B_TRAP, B_PSHUFB, B_REDUCE, B_EXPECT, B_HASH, B_SEEK, B_RSEEK, B_UNSUP };
static bool starts(const str&s,const char*p){ return !strncmp(s.c_str(),p,strlen(p)); }
static bool hasS(const str&s,const char*p){ return s.find(p)!=str::npos; }
static int builtinId(Func*f){
  const str&n=f->name;
  if(!f->ext){ // defined functions that end a path
    if(starts(n,"_R")&&(hasS(n,"4core9panicking9panic_fmt")||hasS(n,"9panicking11begin_panic")||hasS(n,"17rust_begin_unwind")||hasS(n,"19panic_nounwind_fmt")||hasS(n,"9panicking15panic_nounwind")||hasS(n,"18handle_alloc_error"))) return B_PANIC;
    // any hash function is as good as another: a map over symbolic keys gets a constant one (std's is keyed at random)
    // std's search for a byte works on whole words with borrow tricks that drag eight bytes into one term; here byte by byte
    if(starts(n,"_R")&&hasS(n,"4core5slice6memchr")){ if(hasS(n,"6memchr14memchr_aligned")||hasS(n,"6memchr12memchr_naive")||hasS(n,"6memchr6memchr")) return B_SEEK; if(hasS(n,"6memchr7memrchr")) return B_RSEEK; }
    if(starts(n,"_R")&&hasS(n,"11BuildHasher8hash_one")&&!hasS(n,"3dfa")) return B_HASH;
    return 0; }
  static const std::map<str,int> ex={{"__sym_u8",B_SYM_U8},{"__sym_bytes",B_SYM_BYTES},{"__sym_expect_panic",B_SYM_EXPECT},{"__sym_iso_begin",B_SYM_ISO_BEGIN},{"__sym_iso_end",B_SYM_ISO_END},{"__sym_bytes_in",B_SYM_BYTES_IN},{"__sym_u8_in",B_SYM_U8_IN},{"__sym_u32",B_SYM_U32},{"__sym_choice",B_SYM_CHOICE},{"__sym_assume",B_SYM_ASSUME},{"__sym_assert",B_SYM_ASSERT},{"__sym_cover",B_SYM_COVER},{"__sym_trace",B_SYM_TRACE},{"__sym_param",B_SYM_PARAM},{"__sym_file",B_SYM_FILE},{"__sym_print",B_SYM_PRINT},
    {"memcpy",B_MEMCPY},{"memmove",B_MEMCPY},{"memset",B_MEMSET},{"memcmp",B_MEMCMP},{"bcmp",B_BCMP},{"strlen",B_STRLEN},{"__xpg_strerror_r",B_STRERROR},{"strerror_r",B_STRERROR},{"memchr",B_MEMCHR},{"malloc",B_MALLOC},{"calloc",B_CALLOC},{"realloc",B_REALLOC},{"free",B_FREE},{"posix_memalign",B_MEMALIGN},{"abort",B_ABORT},{"exit",B_EXIT},{"_exit",B_EXIT},{"syscall",B_SYSCALL},{"getrandom",B_GETRANDOM},{"__errno_location",B_ERRNO},{"open64",B_OPEN},{"open",B_OPEN},{"read",B_READ},{"close",B_CLOSE},{"fstat64",B_FSTAT},{"lseek64",B_LSEEK},{"lseek",B_LSEEK},{"write",B_WRITE},{"writev",B_WRITEV},{"pthread_key_create",B_KEYCREATE},{"pthread_getspecific",B_KEYGET},{"pthread_setspecific",B_KEYSET},{"pthread_key_delete",B_RET0},{"pthread_self",B_RET0},{"sched_yield",B_RET0},{"getenv",B_GETENV},{"sysconf",B_RETM1},{"__cxa_thread_atexit_impl",B_RET0}};
  auto it=ex.find(n); if(it!=ex.end()) return it->second;
  if(starts(n,"llvm.")){ str s=n.substr(5);
    static const std::vector<std::pair<const char*,int>> in={{"memcpy",B_MEMCPY},{"memmove",B_MEMCPY},{"memset",B_MEMSET},{"umin",B_MIN},{"umax",B_MIN},{"smin",B_MIN},{"smax",B_MIN},{"uadd.with",B_OVF},{"sadd.with",B_OVF},{"usub.with",B_OVF},{"ssub.with",B_OVF},{"umul.with",B_OVF},{"smul.with",B_OVF},{"uadd.sat",B_SAT},{"usub.sat",B_SAT},{"sadd.sat",B_SAT},{"ssub.sat",B_SAT},{"cttz",B_CTZ},{"ctlz",B_CLZ},{"ctpop",B_POP},{"bswap",B_BSWAP},{"bitreverse",B_BITREV},{"abs",B_ABS},{"fshl",B_FSH},{"fshr",B_FSH},{"ucmp",B_CMP3},{"scmp",B_CMP3},{"threadlocal.address",B_IDENT},{"launder",B_IDENT},{"strip.invariant",B_IDENT},{"expect",B_EXPECT},{"is.constant",B_ZERO},{"objectsize",B_ONES},{"fabs",B_FABS},{"fptoui.sat",B_FTOI},{"fptosi.sat",B_FTOI},{"trap",B_TRAP},{"debugtrap",B_TRAP},{"ubsantrap",B_TRAP},
      {"assume",B_NOP},{"lifetime",B_NOP},{"dbg",B_NOP},{"experimental.noalias",B_NOP},{"donothing",B_NOP},{"prefetch",B_NOP},{"sideeffect",B_NOP},{"invariant.",B_NOP},{"x86.sse2.pause",B_NOP},{"fake.use",B_NOP},{"x86.xgetbv",B_ZERO},{"x86.ssse3.pshuf.b",B_PSHUFB},{"x86.avx2.pshuf.b",B_PSHUFB},{"vector.reduce.",B_REDUCE}};
    for(auto&p:in) if(starts(s,p.first)) return p.second; }
  return B_UNSUP;
}
static bool callBuiltin(State&S,Frame*F,const Inst&I,Func*cal,u32 a0){
  auto A=[&](u32 i)->u64{ return opC(S,F,I.o[a0+i]); };
  auto V=[&](u32 i)->Val*{ return R(F,I.o[a0+i]); };
  auto ret=[&](u64 v){ if(I.ty->nslots) F->regs[I.dst]={v&mask64(I.ty->slots[0].w),nullptr}; };
  auto newVar=[&](unsigned w)->u32{ if(S.nvars>=MAXV) unsupported("more than %d symbolic inputs",MAXV); u32 v=S.nvars++; S.vw[v]=w; if(w==8) for(int k=0;k<4;k++) S.dom[v].b[k]=~0ULL; S.model[v]=0; S.in.push_back({0,(u16)v,0}); return v; };
  auto errnoSet=[&](int e){ if(!S.errnoObj) S.errnoObj=allocObj(S,8); u64 off; Obj*o=access(S,S.errnoObj,4,true,&off); memcpy(o->d+off,&e,4); };
  const str&n=cal->name;
  switch(cal->intr){
    case B_NOP: return true;
    case B_SEEK: case B_RSEEK: { if(I.ty->nslots!=2||I.o.size()!=a0+3) unsupported("unexpected form of %s",n.c_str()); u64 c=A(0)&255,a=A(1),k=A(2),at=k; for(u64 q=0;q<k;q++){ u64 i=cal->intr==B_SEEK?q:k-1-q,off; Obj*o=access(S,a+i,1,false,&off); Val v=ldScalar(o,off,1,8); u64 hit=v.e?conc(S,eOp(E_EQ,1,v.e,eConst(c,8))):v.c==c; if(hit){ at=i; break; } } F->regs[I.dst]={at<k,nullptr}; F->regs[I.dst+1]={at<k?at:0,nullptr}; return true; }
    case B_HASH: ret(0x5bd1e9955bd1e995ULL); return true;
    case B_SYM_EXPECT: S.panics=true; return true;
    // between the two, the path goes on as usual; then memory is as it was before, and only the number survives
    case B_SYM_ISO_BEGIN: if(S.iso) unsupported("nested isolated call"); S.iso=true; S.isoMem=S.mem; for(auto c:S.isoMem) if(c) c->rc++; S.isoTls=S.tls; return true;
    case B_SYM_ISO_END: if(!S.iso) unsupported("end of an isolated call without its beginning"); for(auto c:S.mem) decChunk(c); S.mem=S.isoMem; S.isoMem.clear(); S.tls=S.isoTls; S.iso=false; F->regs[I.dst]=*V(0); return true;
    case B_PANIC: { if(S.panics&&!hasS(n,"nounwind")&&!hasS(n,"alloc_error")){ while(!S.st.empty()) popFrame(S); return true; } str loc; if(hasS(n,"panic_fmt")&&I.o.size()>a0){ Val*p=V(I.o.size()-a0-1); if(!p->e){ u64 a=p->c; try{ Val f[1],l[1]; loadT(S,a,M.tPtr,f); loadT(S,a+16,M.tInt[32],l); str file=readC(S,f[0].c); loc=file+":"+std::to_string(l[0].c); }catch(Stop&){ if(!viols.empty()) viols.pop_back(); } } }
      fault(S,"panic",loc+" via "+where(S)); }
    case B_SYM_U8: { u32 v=newVar(8); F->regs[I.dst]={0,eVar(v,8)}; return true; }
    case B_SYM_U32: { u32 v=newVar(32); F->regs[I.dst]={0,eVar(v,32)}; return true; }
    case B_SYM_BYTES: { u64 p=A(0),k=A(1); for(u64 i=0;i<k;i++){ u32 v=newVar(8); Val x={0,eVar(v,8)}; storeT(S,p+i,M.tInt[8],&x); } return true; }
    case B_SYM_BYTES_IN: case B_SYM_U8_IN: { bool one=cal->intr==B_SYM_U8_IN; u64 p=one?0:A(0),k=one?1:A(1); u64 al=A(one?0:2),an=A(one?1:3); str alpha; for(u64 i=0;i<an;i++){ u64 off; Obj*o=access(S,al+i,1,false,&off); Val v=ldScalar(o,off,1,8); alpha+=(char)(v.e?conc(S,v.e):v.c); } Dom d; memset(&d,0,sizeof d); for(char c:alpha) d.b[(u8)c>>6]|=1ULL<<((u8)c&63); if(alpha.empty()) throw PathEnd{"assume"};
      for(u64 i=0;i<k;i++){ u32 v=newVar(8); S.dom[v]=d; S.model[v]=d.first(); if(d.count()==1) S.fixed|=(u128)1<<v; Val x={0,eVar(v,8)}; if(d.count()==1) x={(u64)d.first(),nullptr}; if(one) F->regs[I.dst]=x; else storeT(S,p+i,M.tInt[8],&x); } return true; }
    case B_SYM_CHOICE: { u64 k=A(0); if(k==0) throw PathEnd{"assume"};
      if(k<=256&&!OPT_eager){ u32 v=newVar(8); Dom d; memset(&d,0,sizeof d); for(u64 i=0;i<k;i++) d.b[i>>6]|=1ULL<<(i&63); S.dom[v]=d; if(k==1){ S.fixed|=(u128)1<<v; F->regs[I.dst]={0,nullptr}; } else F->regs[I.dst]={0,eOp(E_ZEXT,32,eVar(v,8))}; return true; }
       for(u64 i=1;i<k;i++){ State*c=cloneState(&S); c->in.push_back({1,0,i}); Frame*cf=top(*c); cf->regs[I.dst]={i,nullptr}; if(!I.bb.empty()) enterBlock(*c,cf,I.bb[0]); else cf->pc++; pushState(c); } if(k>1){ ST.decisions++; S.depthDec++; } S.in.push_back({1,0,0}); F->regs[I.dst]={0,nullptr}; return true; }
    case B_SYM_ASSUME: { Val c=*V(0); if(!c.e){ if(!(c.c&1)) throw PathEnd{"assume"}; return true; } Expr*e=c.e->w==1?c.e:eOp(E_EXTRACT,1,c.e); e=simp(S,e); if(isC(e)){ if(!e->k) throw PathEnd{"assume"}; return true; } u64 m[MAXV]; if(!feas(S,e,m)) throw PathEnd{"assume"}; addC(S,e,m); return true; }
    case B_SYM_ASSERT: { Val c=*V(0); u32 id=A(1); ST.asserts++; if(!c.e){ ST.assertsConst++; if(!(c.c&1)){ report(S,"assert",id,where(S),S.model); throw Stop(); } return true; }
      Expr*e=c.e->w==1?c.e:eOp(E_EXTRACT,1,c.e); e=simp(S,e); if(isC(e)){ ST.assertsConst++; if(!e->k){ report(S,"assert",id,where(S),S.model); throw Stop(); } return true; }
      ST.assertsQ++; u64 m[MAXV]; if(zcheck(S,eNot(e),m)){ report(S,"assert",id,where(S),m); u64 m2[MAXV]; if(!feas(S,e,m2)) throw Stop(); addC(S,e,m2); return true; }
      return true; }
    case B_SYM_COVER: S.covers.insert((u32)A(0)); return true;
    case B_SYM_TRACE: S.trace.push_back(*V(0)); return true;
    case B_SYM_PARAM: { u64 i=A(0); F->regs[I.dst]={i<OPT_params.size()?(u64)OPT_params[i]:0,nullptr}; return true; }
    case B_SYM_PRINT: { str s=readStr(S,A(0),A(1)); fprintf(stderr,"[print] %s\n",s.c_str()); return true; }
    case B_SYM_FILE: { // (data,len,buf,cap)->pathlen ; len = u64::MAX : a path that does not exist
      u64 d=A(0),len=A(1),b=A(2); str path="/symfile/"+std::to_string(S.vfiles.size()); if(len!=~0ULL){ u64 a=allocObj(S,len?len:1); if(len) memCopy(S,a,d,len); S.vfiles[path]={a,len}; } else path+="missing"; u64 off; Obj*o=access(S,b,path.size(),true,&off); memcpy(o->d+off,path.data(),path.size()); ret(path.size()); return true; }
    case B_MEMCPY: { u64 k=A(2),d=A(0),s=A(1); memCopy(S,d,s,k); if(I.ty->nslots) ret(d); return true; }
    case B_MEMSET: { u64 d=A(0),k=A(2); Val v=*V(1); if(k){ u64 off; Obj*o=access(S,d,k,true,&off); if(v.e&&v.e->w>8) v=fromE(eOp(E_EXTRACT,8,v.e)); if(!v.e){ memset(o->d+off,(int)v.c,k); if(o->s) memset(o->s+off,0,k*8); } else for(u64 i=0;i<k;i++) stScalar(o,off+i,1,8,v); } if(I.ty->nslots) ret(d); return true; }
    case B_MEMCMP: case B_BCMP: { u64 a=A(0),b=A(1),k=A(2); if(!k){ ret(0); return true; } u64 ao,bo; Obj*x=access(S,a,k,false,&ao),*y=access(S,b,k,false,&bo); x=access(S,a,k,false,&ao);
      if(cal->intr==B_BCMP){ Expr*ne=eConst(1,1); for(u64 i=0;i<k;i++){ Expr*p=asE(ldScalar(x,ao+i,1,8),8),*q=asE(ldScalar(y,bo+i,1,8),8); ne=eAnd(ne,simp(S,eOp(E_EQ,1,p,q))); } F->regs[I.dst]=fromE(eOp(E_ZEXT,32,eNot(ne))); return true; }
      Expr*r=eConst(0,32); for(u64 i=k;i-->0;){ Expr*p=asE(ldScalar(x,ao+i,1,8),8),*q=asE(ldScalar(y,bo+i,1,8),8); Expr*eq=simp(S,eOp(E_EQ,1,p,q)); Expr*lt=simp(S,eOp(E_ULT,1,p,q)); r=eOp(E_ITE,32,eq,r,eOp(E_ITE,32,lt,eConst(~(u128)0,32),eConst(1,32))); } F->regs[I.dst]=fromE(r); return true; }
    case B_STRLEN: { u64 a=A(0); u64 off; Obj*o=access(S,a,1,false,&off); u64 k=0; while(off+k<o->size){ if(o->s&&o->s[off+k]){ Expr*e=o->s[off+k]; if(conc(S,e)==0) break; o=getObj(S,a>>32); } else if(!o->d[off+k]) break; k++; } ret(k); return true; }
    case B_MEMCHR: { u64 a=A(0),c=A(1)&255,k=A(2); for(u64 i=0;i<k;i++){ u64 off; Obj*o=access(S,a+i,1,false,&off); Val v=ldScalar(o,off,1,8); u64 hit=v.e?conc(S,eOp(E_EQ,1,v.e,eConst(c,8))):v.c==c; if(hit){ ret(a+i); return true; } } ret(0); return true; }
    case B_MALLOC: { u64 k=A(0); ret(allocObj(S,k)); return true; }
    case B_CALLOC: { u64 k=A(0)*A(1); ret(allocObj(S,k)); return true; }
    case B_MEMALIGN: { u64 p=A(0),k=A(2); Val v={allocObj(S,k),nullptr}; storeT(S,p,M.tPtr,&v); ret(0); return true; }
    case B_REALLOC: { u64 p=A(0),k=A(1); u64 np=allocObj(S,k); if(p){ Obj*o=getObj(S,p>>32); if(!o||(p&0xffffffff)!=OBJBASE) fault(S,"memory","realloc of bad pointer in "+where(S)); u64 m=std::min(k,o->size); memCopy(S,np,p,m); setObj(S,p>>32,nullptr); } ret(np); return true; }
    case B_FREE: { u64 p=A(0); if(p){ u64 id=p>>32; Obj*o=id>=nGlob+2?getObj(S,id):nullptr; if(!o||(p&0xffffffff)!=OBJBASE) fault(S,"memory","free of bad pointer in "+where(S)); setObj(S,id,nullptr); } return true; }
    case B_ABORT: fault(S,"abort",where(S));
    case B_EXIT: fault(S,"exit",where(S));
    case B_TRAP: fault(S,"trap",where(S));
    case B_RET0: ret(0); return true;
    case B_RETM1: ret(~0ULL); return true;
    case B_SYSCALL: { u64 no=A(0); if(no==202){ ret(0); return true; } if(no==318){ u64 p=A(1),k=A(2); u64 off; Obj*o=access(S,p,k,true,&off); for(u64 i=0;i<k;i++) o->d[off+i]=(u8)(i*37+11); ret(k); return true; } if(no==332){ errnoSet(38); ret(~0ULL); return true; } unsupported("syscall %llu in %s",(unsigned long long)no,where(S).c_str()); }
    case B_GETRANDOM: { u64 p=A(0),k=A(1); u64 off; Obj*o=access(S,p,k,true,&off); for(u64 i=0;i<k;i++) o->d[off+i]=(u8)(i*37+11); ret(k); return true; }
    case B_ERRNO: { if(!S.errnoObj) S.errnoObj=allocObj(S,8); ret(S.errnoObj); return true; }
    case B_OPEN: { str p=readC(S,A(0)); auto it=S.vfiles.find(p); if(it==S.vfiles.end()){ errnoSet(2); ret(~0ULL); return true; } int fd=S.nextFd++; S.fds[fd]={p,0}; ret(fd); return true; }
    case B_READ: { int fd=(int)A(0); u64 b=A(1),k=A(2); auto it=S.fds.find(fd); if(it==S.fds.end()){ errnoSet(9); ret(~0ULL); return true; } auto&vf=S.vfiles[it->second.first]; u64 left=vf.second-it->second.second; u64 m=std::min(k,left); memCopy(S,b,vf.first+it->second.second,m); it->second.second+=m; ret(m); return true; }
    case B_CLOSE: S.fds.erase((int)A(0)); ret(0); return true;
    case B_FSTAT: { int fd=(int)A(0); u64 b=A(1); auto it=S.fds.find(fd); if(it==S.fds.end()){ errnoSet(9); ret(~0ULL); return true; } u64 off; Obj*o=access(S,b,144,true,&off); memset(o->d+off,0,144); if(o->s) memset(o->s+off,0,144*8); u32 mode=0100644; memcpy(o->d+off+24,&mode,4); u64 sz=S.vfiles[it->second.first].second; memcpy(o->d+off+48,&sz,8); ret(0); return true; }
    case B_LSEEK: { int fd=(int)A(0); u64 o=A(1),wh=A(2); auto it=S.fds.find(fd); if(it==S.fds.end()){ errnoSet(9); ret(~0ULL); return true; } if(wh==0) it->second.second=o; else if(wh==1) it->second.second+=o; else it->second.second=S.vfiles[it->second.first].second+o; ret(it->second.second); return true; }
    case B_WRITE: ret(A(2)); return true;
    case B_WRITEV: { u64 v=A(1),k=A(2),t=0; for(u64 i=0;i<k;i++){ Val l; loadT(S,v+16*i+8,M.tInt[64],&l); t+=cv(S,l); } ret(t); return true; }
    case B_KEYCREATE: { Val k={++S.tlskeys,nullptr}; storeT(S,A(0),M.tInt[32],&k); ret(0); return true; }
    case B_KEYGET: { u64 k=A(0); ret(S.tls.count(k)?S.tls[k]:0); return true; }
    case B_KEYSET: { u64 k=A(0); S.tls[k]=A(1); ret(0); return true; }
    case B_STRERROR: { u64 off; Obj*o=access(S,A(1),8,true,&off); memcpy(o->d+off,"failure",8); ret(0); return true; }
    case B_GETENV: ret(0); return true;
    case B_IDENT: case B_EXPECT: { Val*p=V(0); for(u32 i=0;i<I.ty->nslots;i++) F->regs[I.dst+i]=p[i]; return true; }
    case B_ZERO: for(u32 i=0;i<I.ty->nslots;i++) F->regs[I.dst+i]={0,nullptr}; return true;
    case B_ONES: ret(~0ULL); return true;
    case B_MIN: { unsigned w=lw(I.ty); bool sg=n[5]=='s',mx=n[7]=='a'; if(w>64){ Expr*a=wide(V(0),w),*b=wide(V(1),w); Expr*lt=eOp(sg?E_SLT:E_ULT,1,a,b); put128(F->regs+I.dst,mx?eOp(E_ITE,w,lt,b,a):eOp(E_ITE,w,lt,a,b)); return true; }
      for(u32 i=0;i<I.ty->nslots;i++){ Val a=V(0)[i],b=V(1)[i]; if(!a.e&&!b.e){ bool lt=sg?sext64(a.c,w)<sext64(b.c,w):a.c<b.c; F->regs[I.dst+i]=(lt!=mx)?a:b; } else { Expr*x=asE(a,w),*y=asE(b,w),*lt=eOp(sg?E_SLT:E_ULT,1,x,y); F->regs[I.dst+i]=fromE(mx?eOp(E_ITE,w,lt,y,x):eOp(E_ITE,w,lt,x,y)); } } return true; }
    case B_OVF: case B_SAT: { bool sat=cal->intr==B_SAT; Type*t=I.o[a0].ty; unsigned w=lw(t); bool sg=n[5]=='s'; str opn=n.substr(6,3);
      if(w>64){ Val*pa=V(0),*pb=V(1); if(pa[0].e||pa[1].e||pb[0].e||pb[1].e) unsupported("symbolic 128-bit overflow op"); u128 a=((u128)pa[1].c<<64)|pa[0].c,b=((u128)pb[1].c<<64)|pb[0].c; bool o; u128 r; if(sg){ i128 x=a,y=b,q; o=opn=="add"?__builtin_add_overflow(x,y,&q):opn=="sub"?__builtin_sub_overflow(x,y,&q):__builtin_mul_overflow(x,y,&q); r=q; } else o=opn=="add"?__builtin_add_overflow(a,b,&r):opn=="sub"?__builtin_sub_overflow(a,b,&r):__builtin_mul_overflow(a,b,&r); F->regs[I.dst]={(u64)r,0}; F->regs[I.dst+1]={(u64)(r>>64),0}; if(sat) unsupported("128-bit sat"); F->regs[I.dst+2]={o,0}; return true; }
      for(u32 i=0;i<t->nslots;i++){ Expr*a=asE(V(0)[i],w),*b=asE(V(1)[i],w); unsigned ww=opn=="mul"?2*w:w+1; Expr*x=eOp(sg?E_SEXT:E_ZEXT,ww,a),*y=eOp(sg?E_SEXT:E_ZEXT,ww,b); EOp op=opn=="add"?E_ADD:opn=="sub"?E_SUB:E_MUL; Expr*r=eOp(op,w,a,b); Expr*o;
        if(!sg&&opn=="add") o=eNot(eOp(E_ULT,1,eOp(E_ADD,ww,x,y),eConst((u128)1<<w,ww))); else if(!sg&&opn=="sub") o=eOp(E_ULT,1,a,b); else { Expr*f=eOp(op,ww,x,y); o=eNot(eOp(E_ULT,1,sg?eOp(E_ADD,ww,f,eConst((u128)1<<(w-1),ww)):f,eConst((u128)1<<w,ww))); }
        if(!sat){ F->regs[I.dst]=fromE(r); F->regs[I.dst+t->nslots]=fromE(o); if(t->nslots!=1) unsupported("vector overflow op"); }
        else { Expr*lim; if(!sg) lim=eConst(opn=="add"?~(u128)0:0,w); else { Expr*neg=eOp(E_SLT,1,a,eConst(0,w)); lim=eOp(E_ITE,w,neg,eConst((u128)1<<(w-1),w),eConst(((u128)1<<(w-1))-1,w)); } F->regs[I.dst+i]=fromE(eOp(E_ITE,w,o,lim,r)); } } return true; }
    case B_CTZ: case B_CLZ: case B_POP: { unsigned w=lw(I.ty); if(w>64){ Expr*e=wide(V(0),w); if(!isC(e)) unsupported("symbolic 128-bit bit count"); u128 v=cval(e); u64 lo=v,hi=v>>64; unsigned r=cal->intr==B_POP?__builtin_popcountll(lo)+__builtin_popcountll(hi):cal->intr==B_CTZ?(lo?__builtin_ctzll(lo):hi?64+__builtin_ctzll(hi):w):(hi?__builtin_clzll(hi)-(128-w):lo?__builtin_clzll(lo)+64-(128-w):w); F->regs[I.dst]={r,0}; F->regs[I.dst+1]={0,0}; return true; }
      for(u32 i=0;i<I.ty->nslots;i++){ Val v=V(0)[i]; if(!v.e){ u64 x=v.c; u64 r=cal->intr==B_POP?__builtin_popcountll(x):cal->intr==B_CTZ?(x?__builtin_ctzll(x):w):(x?__builtin_clzll(x)-(64-w):w); F->regs[I.dst+i]={r,0}; continue; }
        Expr*e=v.e; Expr*r; if(cal->intr==B_POP){ r=eConst(0,w); for(unsigned k=0;k<w;k++) r=eOp(E_ADD,w,r,eOp(E_ZEXT,w,eOp(E_EXTRACT,1,e,nullptr,nullptr,k))); } else { r=eConst(w,w); for(unsigned k=0;k<w;k++){ unsigned bit=cal->intr==B_CTZ?w-1-k:k; r=eOp(E_ITE,w,eOp(E_EXTRACT,1,e,nullptr,nullptr,bit),eConst(cal->intr==B_CTZ?bit:w-1-bit,w),r); } }
        F->regs[I.dst+i]=fromE(r); } return true; }
    case B_BSWAP: case B_BITREV: { unsigned w=lw(I.ty); if(w>64) unsupported("bswap128"); unsigned g=cal->intr==B_BSWAP?8:1; for(u32 i=0;i<I.ty->nslots;i++){ Val v=V(0)[i]; if(!v.e){ u64 r=0; for(unsigned k=0;k<w;k+=g) r|=((v.c>>k)&mask64(g))<<(w-g-k); F->regs[I.dst+i]={r,0}; } else { Expr*r=nullptr; for(unsigned k=0;k<w;k+=g){ Expr*p=eOp(E_EXTRACT,g,v.e,nullptr,nullptr,k); r=r?eOp(E_CONCAT,r->w+g,r,p):p; } F->regs[I.dst+i]=fromE(r); } } return true; }
    case B_ABS: { unsigned w=lw(I.ty); Expr*e=nullptr; for(u32 i=0;i<(w>64?1:I.ty->nslots);i++){ e=w>64?wide(V(0),w):asE(V(0)[i],w); Expr*r=eOp(E_ITE,w,eOp(E_SLT,1,e,eConst(0,w)),eOp(E_SUB,w,eConst(0,w),e),e); if(w>64) put128(F->regs+I.dst,r); else F->regs[I.dst+i]=fromE(r); } return true; }
    case B_FSH: { unsigned w=lw(I.ty); if(w>64) unsupported("fsh128"); bool left=n[8]=='l'; u64 s=A(2)%w; if(I.ty->nslots!=1) unsupported("vector fsh"); Val a=V(0)[0],b=V(1)[0]; if(!s){ F->regs[I.dst]=left?a:b; return true; } unsigned sl=left?s:w-s; F->regs[I.dst]=binS(S,E_OR,w,binS(S,E_SHL,w,a,{sl,0}),binS(S,E_LSHR,w,b,{w-sl,0})); return true; }
    case B_CMP3: { unsigned w=lw(I.o[a0].ty),rw=lw(I.ty); bool sg=n[5]=='s'; Expr*a=wide(V(0),w),*b=wide(V(1),w); Expr*lt=eOp(sg?E_SLT:E_ULT,1,a,b),*gt=eOp(sg?E_SLT:E_ULT,1,b,a); F->regs[I.dst]=fromE(eOp(E_ITE,rw,lt,eConst(~(u128)0,rw),eOp(E_ITE,rw,gt,eConst(1,rw),eConst(0,rw)))); return true; }
    case B_FABS: { unsigned w=lw(I.ty); if(V(0)->e&&I.ty->nslots==1){ F->regs[I.dst]=fromE(eOp(E_AND,w,V(0)->e,eConst(((u128)1<<(w-1))-1,w))); return true; } u64 x=A(0); F->regs[I.dst]={x&~(1ULL<<(w-1)),0}; return true; }
    case B_FTOI: { if(V(0)->e&&I.ty->nslots==1&&lw(I.ty)<=64){ F->regs[I.dst]=fromE(fpToInt(V(0)->e,n[8]=='s',lw(I.ty))); return true; } unsigned sw=lw(I.o[a0].ty),w=lw(I.ty); double v=fget(A(0),sw); bool sg=n[8]=='s'; u64 r; if(std::isnan(v)) r=0; else if(sg){ double lo=-ldexp(1,w-1),hi=ldexp(1,w-1); r=v<=lo?(u64)1<<(w-1):v>=hi?((u64)1<<(w-1))-1:(u64)(i64)v; } else r=v<=0?0:v>=ldexp(1,w)?mask64(w):(u64)v; ret(r); return true; }
    case B_PSHUFB: { for(u32 i=0;i<I.ty->nslots;i++){ Val m=V(1)[i]; u64 x=m.e?conc(S,m.e):m.c; u32 lane=i/16*16; F->regs[I.dst+i]=(x&0x80)?Val{0,nullptr}:V(0)[lane+(x&15)]; } return true; }
    case B_REDUCE: { Type*t=I.o[a0].ty; unsigned w=lw(t); str k=n.substr(19); k=k.substr(0,k.find('.')); Val r=V(0)[0]; for(u32 i=1;i<t->nslots;i++){ Val x=V(0)[i]; if(k=="or") r=binS(S,E_OR,w,r,x); else if(k=="and") r=binS(S,E_AND,w,r,x); else if(k=="xor") r=binS(S,E_XOR,w,r,x); else if(k=="add") r=binS(S,E_ADD,w,r,x); else if(k=="mul") r=binS(S,E_MUL,w,r,x); else { bool sg=k[0]=='s',mx=k[2]=='a'; Expr*a=asE(r,w),*b=asE(x,w),*lt=eOp(sg?E_SLT:E_ULT,1,a,b); r=fromE(mx?eOp(E_ITE,w,lt,b,a):eOp(E_ITE,w,lt,a,b)); } } F->regs[I.dst]=r; return true; }
    default: unsupported("external function %s called from %s",n.c_str(),where(S).c_str());
  }
}
