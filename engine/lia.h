// Second back end for queries that hold multiplications by constants (decimal numbers read from
// digits): the same constraints over Z3 integers.  Every expression becomes an integer term
// congruent to its bit-vector value modulo 2^w, together with an interval; it is reduced modulo 2^w
// only where the interval does not show that no wrap-around can happen.  Exact, not an abstraction;
// expressions that cannot be put this way make the whole query fall back to bit-vectors.
struct LI { Z3_ast base; i128 off, lo, hi; };   // value = base + off (base may be null), lo..hi bounds it
struct Lia {
  State&S; bool ok=true; std::unordered_map<Expr*,LI> im; std::unordered_map<Expr*,Z3_ast> bm; std::unordered_map<unsigned,std::pair<i128,i128>> known; std::unordered_map<unsigned,Z3_ast> ivar; std::vector<Z3_ast> side;
  Z3_sort IS; Lia(State&s):S(s){ IS=Z3_mk_int_sort(Z); }
  static i128 p2(unsigned w){ return (i128)1<<w; }
  Z3_ast num(i128 v){ bool neg=v<0; u128 u=neg?(u128)-v:(u128)v; char b[48]; int i=47; b[i]=0; do{ b[--i]='0'+(int)(u%10); u/=10; }while(u); if(neg) b[--i]='-'; return Z3_mk_numeral(Z,b+i,IS); }
  Z3_ast term(const LI&x){ if(!x.base) return num(x.off); if(x.off==0) return x.base; Z3_ast a[2]={x.base,num(x.off)}; return Z3_mk_add(Z,2,a); }
  static i128 fdiv(i128 a,i128 b){ i128 q=a/b; if(a%b!=0&&a<0) q--; return q; }
  int failop=-1; Expr* cur=nullptr; LI fail(){ if(ok&&cur) failop=cur->op*1000+cur->w; ok=false; return {nullptr,0,0,0}; }
  LI con(i128 v){ return {nullptr,v,v,v}; }
  LI mk(Z3_ast base,i128 off,i128 lo,i128 hi){ if(lo==hi) return con(lo); auto it=known.find(Z3_get_ast_id(Z,base)); if(it!=known.end()){ if(it->second.first+off>lo) lo=it->second.first+off; if(it->second.second+off<hi) hi=it->second.second+off; } i128 lim=(i128)1<<120; if(lo<-lim||hi>lim) return fail(); return {base,off,lo,hi}; }
  Z3_ast var(unsigned i){ auto it=ivar.find(i); if(it!=ivar.end()) return it->second; char n[32]; snprintf(n,32,"i%u",i); Z3_ast v=Z3_mk_const(Z,Z3_mk_string_symbol(Z,n),IS); ivar[i]=v; return v; }
  LI uns(LI x,unsigned w){ if(!ok) return x; if(w>100) return x.lo>=0? x:fail(); i128 m=p2(w),q=fdiv(x.lo,m); if(q==fdiv(x.hi,m)){ x.off-=q*m; x.lo-=q*m; x.hi-=q*m; return x; } return mk(Z3_mk_mod(Z,term(x),num(m)),0,0,m-1); }
  LI sgn(LI x,unsigned w){ if(!ok) return x; if(w>100) return x; i128 h=p2(w-1); x.off+=h; x.lo+=h; x.hi+=h; x=uns(x,w); x.off-=h; x.lo-=h; x.hi-=h; return x; }
  LI add(const LI&a,const LI&b,int sg){ i128 off=a.off+sg*b.off; i128 lo=a.lo+(sg>0?b.lo:-b.hi),hi=a.hi+(sg>0?b.hi:-b.lo); if(!b.base) return a.base? mk(a.base,off,lo,hi):con(off); Z3_ast t; if(!a.base){ t=sg>0? b.base:Z3_mk_unary_minus(Z,b.base); } else { Z3_ast x[2]={a.base,b.base}; t=sg>0?Z3_mk_add(Z,2,x):Z3_mk_sub(Z,2,x); } return mk(t,off,lo,hi); }
  LI mulc(const LI&a,i128 k){ if(!a.base) return con(a.off*k); if(k==0) return con(0); i128 lim=(i128)1<<60; if(k>lim||k<-lim||a.lo<-lim||a.hi>lim) return fail(); Z3_ast x[2]={a.base,num(k)}; i128 lo=a.lo*k,hi=a.hi*k; if(k<0) std::swap(lo,hi); return mk(Z3_mk_mul(Z,2,x),a.off*k,lo,hi); }
  LI I(Expr*e){ if(!ok) return fail(); auto it=im.find(e); if(it!=im.end()) return it->second; LI r=I2(e); im[e]=r; return r; }
  LI I2(Expr*e){ unsigned w=e->w; if(ok) cur=e;
    switch(e->op){
      case E_CONST: { if(w>64) return e->k2>>(w-64-1)&1? con(sext128(cval(e),w)):con((i128)cval(e)); i64 s=sext64(e->k,w); return con(s<0&&s>-(1LL<<40)? (i128)s:(i128)e->k); }
      case E_VAR: { if(w>64) return fail(); Z3_ast v=var(e->var); return mk(v,0,0,p2(w)-1); }
      case E_UN: { if(w==1) break; Dom&d=S.dom[e->var]; Z3_ast v=var(e->var); struct Pc{ int lo,hi; bool lin; i128 val,sl; }; std::vector<Pc> ps; u64 m=mask64(w); std::vector<int> ix; i128 lo=p2(w),hi=0; for(int i=0;i<256;i++) if(d.has(i)){ ix.push_back(i); i128 x=e->tab[i]; if(x<lo) lo=x; if(x>hi) hi=x; }
        if(ix.empty()) return con(0); size_t n=ix.size(),i=0;
        while(i<n){ size_t j=i,k=i; while(j+1<n&&e->tab[ix[j+1]]==e->tab[ix[i]]) j++; (void)m; i128 sl=i+1<n?((i128)e->tab[ix[i+1]]-(i128)e->tab[ix[i]]):0; if(i+1<n&&sl%(ix[i+1]-ix[i])==0){ sl/=ix[i+1]-ix[i]; while(k+1<n&&(i128)e->tab[ix[k+1]]-(i128)e->tab[ix[k]]==sl*(ix[k+1]-ix[k])) k++; } if(k>j){ ps.push_back({ix[i],ix[k],sl!=0,(i128)e->tab[ix[i]]-sl*ix[i],sl}); i=k+1; } else { ps.push_back({ix[i],ix[j],false,(i128)e->tab[ix[i]],0}); i=j+1; } }
        if(ps.size()==1&&ps[0].lin){ if(ps[0].sl==1) return mk(v,ps[0].val,lo,hi); Z3_ast x[2]={v,num(ps[0].sl)}; return mk(Z3_mk_mul(Z,2,x),ps[0].val,lo,hi); }
        if(ps.size()>12) return fail();
        auto pv=[&](Pc&p){ LI x; if(!p.lin) return num(p.val); Z3_ast y[2]={v,num(p.sl)}; x.base=p.sl==1?v:Z3_mk_mul(Z,2,y); x.off=p.val; return term(x); };
        Z3_ast r=pv(ps.back()); for(int q=(int)ps.size()-2;q>=0;q--) r=Z3_mk_ite(Z,Z3_mk_le(Z,v,num(ps[q].hi)),pv(ps[q]),r); return mk(r,0,lo,hi); }
      case E_ADD: return add(I(e->a),I(e->b),1); case E_SUB: return add(I(e->a),I(e->b),-1);
      case E_MUL: { LI a=I(e->a),b=I(e->b); if(!ok) return a; if(!a.base) std::swap(a,b); if(b.base) return fail(); i128 k=b.off; if(w<=100&&k>p2(w-1)) k-=p2(w); return mulc(a,k); }
      case E_SHL: { LI a=I(e->a); if(!isC(e->b)||cval(e->b)>=w||cval(e->b)>50) return fail(); return mulc(a,p2((unsigned)cval(e->b))); }
      case E_ZEXT: return uns(I(e->a),e->a->w);
      case E_SEXT: return sgn(I(e->a),e->a->w);
      case E_EXTRACT: { LI a=I(e->a); if(e->lo==0) return a; a=uns(a,e->a->w); if(!ok) return a; i128 k=p2(e->lo); if(!a.base) return con(fdiv(a.off,k)); return mk(Z3_mk_div(Z,term(a),num(k)),0,a.lo/k,a.hi/k); }
      case E_LSHR: case E_UDIV: case E_UREM: { LI a=uns(I(e->a),w); if(!isC(e->b)) return fail(); u128 c=cval(e->b); if(e->op==E_LSHR){ if(c>=w) return con(0); c=(u128)1<<(unsigned)c; } if(!ok||c==0||c>>62) return fail(); i128 k=(i128)c; if(!a.base) return con(e->op==E_UREM?a.off%k:a.off/k); if(e->op==E_UREM) return a.hi<k? a:mk(Z3_mk_mod(Z,term(a),num(k)),0,0,k-1); return mk(Z3_mk_div(Z,term(a),num(k)),0,a.lo/k,a.hi/k); }
      case E_AND: if(w>1&&isC(e->b)){ u128 c=cval(e->b); if((c&(c+1))==0){ unsigned n=0; while(c>>n&1) n++; return uns(I(e->a),n); } return fail(); } break;
      case E_CONCAT: { LI a=I(e->a),b=uns(I(e->b),e->b->w); if(!ok) return a; return add(mulc(a,p2(e->b->w)),b,1); }
      case E_ITE: if(w>1){ Z3_ast c=B(e->a); LI a=uns(I(e->b),w),b=uns(I(e->c),w); if(!ok) return a; return mk(Z3_mk_ite(Z,c,term(a),term(b)),0,a.lo<b.lo?a.lo:b.lo,a.hi>b.hi?a.hi:b.hi); } break;
      default: break;
    }
    if(w==1){ Z3_ast b=B(e); if(!ok) return con(0); return mk(Z3_mk_ite(Z,b,num(1),num(0)),0,0,1); }
    return fail();
  }
  Z3_ast set(unsigned vn,const std::function<bool(int)>&f){ Z3_ast v=var(vn); std::vector<Z3_ast> o; int i=0; while(i<256){ if(!f(i)){ i++; continue; } int j=i; while(j<255&&f(j+1)) j++; Z3_ast x[2]={Z3_mk_ge(Z,v,num(i)),Z3_mk_le(Z,v,num(j))}; o.push_back(i==j?Z3_mk_eq(Z,v,num(i)):Z3_mk_and(Z,2,x)); i=j+1; } if(o.empty()) return Z3_mk_false(Z); return o.size()==1?o[0]:Z3_mk_or(Z,o.size(),o.data()); }
  Z3_ast B(Expr*e){ if(!ok) return Z3_mk_true(Z); auto it=bm.find(e); if(it!=bm.end()) return it->second; Z3_ast r=B2(e); bm[e]=r; return r; }
  Z3_ast Bx(Expr*e){ return B(e); }
  Z3_ast B2(Expr*e){
    auto bad=[&](){ if(ok) failop=100000000+e->op*1000+e->w; ok=false; return Z3_mk_true(Z); };
    if(e->w!=1) return bad();
    switch(e->op){
      case E_CONST: return e->k&1?Z3_mk_true(Z):Z3_mk_false(Z);
      case E_UN: { Dom&d=S.dom[e->var]; bool t=false,f=false; for(int i=0;i<256;i++) if(d.has(i)){ if(e->tab[i]&1) t=true; else f=true; } if(!f) return Z3_mk_true(Z); if(!t) return Z3_mk_false(Z); return set(e->var,[&](int i){ return d.has(i)&&(e->tab[i]&1); }); }
      case E_XOR: { if(isC(e->b)){ Z3_ast a=B(e->a); return e->b->k&1?Z3_mk_not(Z,a):a; } return Z3_mk_xor(Z,B(e->a),B(e->b)); }
      case E_AND: { Z3_ast x[2]={B(e->a),B(e->b)}; return Z3_mk_and(Z,2,x); }
      case E_OR: { Z3_ast x[2]={B(e->a),B(e->b)}; return Z3_mk_or(Z,2,x); }
      case E_ITE: return Z3_mk_ite(Z,B(e->a),B(e->b),B(e->c));
      case E_EQ: if(e->a->w==1) return Z3_mk_iff(Z,B(e->a),B(e->b)); // fall through
      case E_ULT: case E_ULE: { unsigned w=e->a->w;
        if(e->op==E_ULT&&w<=64&&e->a->op==E_ADD&&(e->a->a==e->b||e->a->b==e->b)){ LI x=uns(I(e->a->a),w),y=uns(I(e->a->b),w); if(!ok) return bad(); LI s=add(x,y,1); if(!ok) return bad(); return rel(E_ULE,con(p2(w)),s); } // wrap-around test
        LI a=uns(I(e->a),w),b=uns(I(e->b),w); if(!ok) return bad(); return rel(e->op,a,b); }
      case E_SLT: case E_SLE: { unsigned w=e->a->w; LI a=sgn(I(e->a),w),b=sgn(I(e->b),w); if(!ok) return bad(); return rel(e->op==E_SLT?E_ULT:E_ULE,a,b); }
      case E_EXTRACT: { unsigned aw=e->a->w; if(e->lo==aw-1){ LI a=sgn(I(e->a),aw); if(!ok) return bad(); return rel(E_ULT,a,con(0)); } LI a=uns(I(e),1); if(!ok) return bad(); return rel(E_EQ,a,con(1)); }
      default: return bad();
    }
  }
  Z3_ast rel(EOp op,const LI&a,const LI&b){ Z3_ast x=term(a),y=term(b);
    if(op==E_EQ){ if(a.hi<b.lo||b.hi<a.lo) return Z3_mk_false(Z); return Z3_mk_eq(Z,x,y); }
    if(op==E_ULT){ if(a.hi<b.lo) return Z3_mk_true(Z); if(a.lo>=b.hi) return Z3_mk_false(Z); return Z3_mk_lt(Z,x,y); }
    if(a.hi<=b.lo) return Z3_mk_true(Z); if(a.lo>b.hi) return Z3_mk_false(Z); return Z3_mk_le(Z,x,y); }
  // learn the interval a constraint of the path gives to a term
  void learn(const LI&a,i128 lo,i128 hi){ if(!a.base) return; unsigned id=Z3_get_ast_id(Z,a.base); auto it=known.find(id); i128 l=lo-a.off,h=hi-a.off; if(it==known.end()) known[id]={l,h}; else { if(l>it->second.first) it->second.first=l; if(h<it->second.second) it->second.second=h; } im.clear(); bm.clear(); }
  void learnFrom(Expr*e){ bool neg=false; while(e->op==E_XOR&&isC(e->b)&&e->w==1){ neg=!neg; e=e->a; }
    if(e->op==E_AND&&!neg&&e->w==1){ learnFrom(e->a); learnFrom(e->b); return; }
    if(e->op==E_OR&&neg&&e->w==1){ learnNot(e->a); learnNot(e->b); return; }
    if(e->op!=E_ULT&&e->op!=E_SLT) return; unsigned w=e->a->w; bool sg=e->op==E_SLT; LI a=sg?sgn(I(e->a),w):uns(I(e->a),w),b=sg?sgn(I(e->b),w):uns(I(e->b),w); if(!ok) return;
    if(!b.base){ if(!neg) learn(a,a.lo,b.off-1); else learn(a,b.off,a.hi); } else if(!a.base){ if(!neg) learn(b,a.off+1,b.hi); else learn(b,b.lo,a.off); } }
  void learnNot(Expr*e){ learnFrom(eNot(e)); }
};
