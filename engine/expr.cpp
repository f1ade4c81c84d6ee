#include "expr.h"
ExprCtx X; u32 evalStamp=1;

static u64 tabval(Expr*e,int i){ return e->op==E_CONST? e->k : e->tab[i]; }
// every operand is CONST or UN over the same variable, result width <= 64
static bool tabOk(Expr*e,u128 s){ if(!e) return true; if(e->op==E_CONST) return e->w<=64; return e->op==E_UN && e->sup==s; }

static bool cmpOp(EOp op){ return op>=E_EQ && op<=E_SLE; }

Expr* eOp(EOp op,unsigned w,Expr*a,Expr*b,Expr*c,u32 lo){
  unsigned aw=a->w;
  // full constants
  if(op!=E_CONCAT && isC(a)&&(!b||isC(b))&&(!c||isC(c))) return eConst(evalOp(op,w,aw,cval(a),b?cval(b):0,c?cval(c):0,lo),w);
  if(op==E_CONCAT && isC(a)&&isC(b)) return eConst((cval(a)<<b->w)|cval(b),w);
  u128 s=a->sup|(b?b->sup:0)|(c?c->sup:0);
  if(unary1(s) && w<=64 && tabOk(a,s)&&tabOk(b,s)&&tabOk(c,s)){
    u64 tab[256];
    if(op==E_CONCAT){ unsigned bw=b->w; for(int i=0;i<256;i++) tab[i]=(tabval(a,i)<<bw)|tabval(b,i); }
    else switch(op){
      case E_ADD: { u64 m=mask64(w); for(int i=0;i<256;i++) tab[i]=(tabval(a,i)+tabval(b,i))&m; break; }
      case E_SUB: { u64 m=mask64(w); for(int i=0;i<256;i++) tab[i]=(tabval(a,i)-tabval(b,i))&m; break; }
      case E_AND: for(int i=0;i<256;i++) tab[i]=tabval(a,i)&tabval(b,i); break;
      case E_OR: for(int i=0;i<256;i++) tab[i]=tabval(a,i)|tabval(b,i); break;
      case E_XOR: for(int i=0;i<256;i++) tab[i]=tabval(a,i)^tabval(b,i); break;
      case E_EQ: for(int i=0;i<256;i++) tab[i]=tabval(a,i)==tabval(b,i); break;
      case E_ULT: for(int i=0;i<256;i++) tab[i]=tabval(a,i)<tabval(b,i); break;
      case E_ZEXT: for(int i=0;i<256;i++) tab[i]=tabval(a,i); break;
      case E_EXTRACT: { u64 m=mask64(w); for(int i=0;i<256;i++) tab[i]=(tabval(a,i)>>lo)&m; break; }
      default: for(int i=0;i<256;i++) tab[i]=(u64)evalOp(op,w,aw,tabval(a,i),b?tabval(b,i):0,c?tabval(c,i):0,lo);
    }
    return eUn(lowvar(s),w,tab);
  }
  // algebraic simplification
  if((op==E_ADD||op==E_MUL||op==E_AND||op==E_OR||op==E_XOR||op==E_EQ) && isC(a)){ Expr*t=a;a=b;b=t; }
  if((op==E_AND||op==E_OR||op==E_XOR||op==E_EQ||op==E_ADD||op==E_MUL) && !isC(b) && a->id>b->id){ Expr*t=a;a=b;b=t; }
  u128 m=mask128(w);
  switch(op){
    case E_ADD: case E_SUB: case E_SHL: case E_LSHR: case E_ASHR: if(b&&isC(b)&&cval(b)==0) return a; if(op==E_SUB&&a==b) return eConst(0,w);
      if(op==E_ADD&&isC(b)&&a->op==E_ADD&&isC(a->b)) return eOp(E_ADD,w,a->a,eConst(cval(b)+cval(a->b),w));
      if(op==E_SUB&&isC(b)) return eOp(E_ADD,w,a,eConst((u128)0-cval(b),w));
      if((op==E_SHL||op==E_LSHR)&&isC(b)&&cval(b)>=w) return eConst(0,w);
      if(op==E_LSHR&&isC(b)&&a->op==E_ZEXT&&cval(b)>=a->a->w) return eConst(0,w);
      break;
    case E_MUL: if(isC(b)&&cval(b)==0) return b; if(isC(b)&&cval(b)==1) return a; break;
    case E_UDIV: if(isC(b)&&cval(b)==1) return a; break;
    case E_AND: if(a==b) return a; if(isC(b)){ if(cval(b)==0) return b; if(cval(b)==m) return a;
        if(a->op==E_ZEXT){ u128 am=mask128(a->a->w); if((cval(b)&am)==am) return a; if((cval(b)&am)==0) return eConst(0,w); }
        // low mask of concat/others left to the solver
      }
      if(w==1&&!isC(b)){ if(a->op==E_XOR&&isC(a->b)&&a->a==b) return eConst(0,1); if(b->op==E_XOR&&isC(b->b)&&b->a==a) return eConst(0,1);
        if(a->op==E_AND&&(a->a==b||a->b==b)) return a; if(b->op==E_AND&&(b->a==a||b->b==a)) return b; }
      break;
    case E_OR: if(a==b) return a; if(isC(b)){ if(cval(b)==0) return a; if(cval(b)==m) return b; }
      if(w==1&&!isC(b)){ if(a->op==E_XOR&&isC(a->b)&&a->a==b) return eConst(1,1); if(b->op==E_XOR&&isC(b->b)&&b->a==a) return eConst(1,1);
        if(a->op==E_OR&&(a->a==b||a->b==b)) return a; if(b->op==E_OR&&(b->a==a||b->b==a)) return b; }
      break;
    case E_XOR: if(a==b) return eConst(0,w); if(isC(b)){ if(cval(b)==0) return a; if(a->op==E_XOR&&isC(a->b)) return eOp(E_XOR,w,a->a,eConst(cval(b)^cval(a->b),w)); }
      if(w==1&&isC(b)&&a->op==E_ITE) return eOp(E_ITE,1,a->a,eNot(a->b),eNot(a->c));
      break;
    case E_EQ: if(a==b) return eConst(1,1);
      if(aw==1&&isC(b)) return cval(b)? a : eNot(a);
      if(isC(b)){
        if(a->op==E_ZEXT){ if(cval(b)>>a->a->w) return eConst(0,1); return eOp(E_EQ,1,a->a,eConst(cval(b),a->a->w)); }
        if(a->op==E_SEXT){ u128 t=cval(b)&mask128(a->a->w); if(((u128)sext128(t,a->a->w)&mask128(aw))!=cval(b)) return eConst(0,1); return eOp(E_EQ,1,a->a,eConst(t,a->a->w)); }
        if(a->op==E_CONCAT){ unsigned bw=a->b->w; return eAnd(eOp(E_EQ,1,a->a,eConst(cval(b)>>bw,a->a->w)),eOp(E_EQ,1,a->b,eConst(cval(b),bw))); }
        if(a->op==E_ADD&&isC(a->b)) return eOp(E_EQ,1,a->a,eConst(cval(b)-cval(a->b),aw));
      } else if(a->op==E_ZEXT&&b->op==E_ZEXT&&a->a->w==b->a->w) return eOp(E_EQ,1,a->a,b->a);
      break;
    case E_ULT: if(a==b) return eConst(0,1); if(isC(b)&&cval(b)==0) return eConst(0,1);
      if(isC(b)&&a->op==E_ZEXT){ unsigned iw=a->a->w; if(cval(b)>mask128(iw)) return eConst(1,1); return eOp(E_ULT,1,a->a,eConst(cval(b),iw)); }
      if(isC(a)&&b->op==E_ZEXT){ unsigned iw=b->a->w; if(cval(a)>=mask128(iw)) return eConst(0,1); return eOp(E_ULT,1,eConst(cval(a),iw),b->a); }
      if(a->op==E_ZEXT&&b->op==E_ZEXT&&a->a->w==b->a->w) return eOp(E_ULT,1,a->a,b->a);
      break;
    case E_ULE: if(a==b) return eConst(1,1); return eNot(eOp(E_ULT,1,b,a));
    case E_SLT: if(a==b) return eConst(0,1); if(a->op==E_ZEXT&&b->op==E_ZEXT&&a->a->w==b->a->w) return eOp(E_ULT,1,a->a,b->a); break;
    case E_SLE: if(a==b) return eConst(1,1); return eNot(eOp(E_SLT,1,b,a));
    case E_ITE: if(isC(a)) return cval(a)? b : c; if(b==c) return b;
      if(w==1){ if(isC(b)) return cval(b)? eOr(a,c) : eAnd(eNot(a),c); if(isC(c)) return cval(c)? eOr(eNot(a),b) : eAnd(a,b); }
      if(a->op==E_XOR&&isC(a->b)) return eOp(E_ITE,w,a->a,c,b);
      if(c->op==E_ITE&&c->a==a) return eOp(E_ITE,w,a,b,c->c);
      if(b->op==E_ITE&&b->a==a) return eOp(E_ITE,w,a,b->b,c);
      break;
    case E_ZEXT: if(w==aw) return a; if(a->op==E_ZEXT) return eOp(E_ZEXT,w,a->a); break;
    case E_SEXT: if(w==aw) return a; if(a->op==E_SEXT) return eOp(E_SEXT,w,a->a); if(a->op==E_ZEXT) return eOp(E_ZEXT,w,a->a); break;
    case E_EXTRACT: if(w==aw) return a;
      if(a->op==E_EXTRACT) return eOp(E_EXTRACT,w,a->a,nullptr,nullptr,lo+a->lo);
      if(a->op==E_ZEXT){ unsigned iw=a->a->w; if(lo>=iw) return eConst(0,w); if(lo+w<=iw) return eOp(E_EXTRACT,w,a->a,nullptr,nullptr,lo); if(lo==0) return eOp(E_ZEXT,w,a->a); }
      if(a->op==E_CONCAT){ unsigned bw=a->b->w; if(lo+w<=bw) return eOp(E_EXTRACT,w,a->b,nullptr,nullptr,lo); if(lo>=bw) return eOp(E_EXTRACT,w,a->a,nullptr,nullptr,lo-bw); }
      if(a->op==E_SHL&&isC(a->b)&&cval(a->b)<aw){ u32 k=(u32)cval(a->b); if(lo+w<=k) return eConst(0,w); if(lo>=k) return eOp(E_EXTRACT,w,a->a,nullptr,nullptr,lo-k); }
      if(a->op==E_LSHR&&isC(a->b)&&cval(a->b)<aw){ u32 k=(u32)cval(a->b); if(lo+k+w<=aw) return eOp(E_EXTRACT,w,a->a,nullptr,nullptr,lo+k); if(lo+k>=aw) return eConst(0,w); }
      if(a->op==E_SEXT&&lo+w<=a->a->w) return eOp(E_EXTRACT,w,a->a,nullptr,nullptr,lo);
      if(a->op==E_ITE&&(isC(a->b)||isC(a->c))) return eOp(E_ITE,w,a->a,eOp(E_EXTRACT,w,a->b,nullptr,nullptr,lo),eOp(E_EXTRACT,w,a->c,nullptr,nullptr,lo));
      if(lo==0&&(a->op==E_AND||a->op==E_OR||a->op==E_XOR||a->op==E_ADD||a->op==E_MUL)) return eOp(a->op,w,eOp(E_EXTRACT,w,a->a),eOp(E_EXTRACT,w,a->b));
      break;
    case E_CONCAT: if(isC(a)&&cval(a)==0) return eOp(E_ZEXT,w,b);
      if(a->op==E_EXTRACT&&b->op==E_EXTRACT&&a->a==b->a&&a->lo==b->lo+b->w) return eOp(E_EXTRACT,w,a->a,nullptr,nullptr,b->lo);
      if(a->op==E_EXTRACT&&a->lo==b->w&&a->a->op==b->op&&(b->op==E_ADD||b->op==E_MUL)&&eOp(E_EXTRACT,b->w,a->a)==b) return eOp(E_EXTRACT,w,a->a);
      // (hi-extract of e) . (bytes already merged)
      break;
    default: break;
  }
  if(cmpOp(op)){ // push comparisons with constants into ITEs with a constant arm
    if(isC(b)&&a->op==E_ITE&&(isC(a->b)||isC(a->c))) return eOp(E_ITE,1,a->a,eOp(op,1,a->b,b),eOp(op,1,a->c,b));
    if(isC(a)&&b->op==E_ITE&&(isC(b->b)||isC(b->c))) return eOp(E_ITE,1,b->a,eOp(op,1,a,b->b),eOp(op,1,a,b->c));
  } else if((op==E_ZEXT||op==E_SEXT)&&a->op==E_ITE&&isC(a->b)&&isC(a->c)) return eOp(E_ITE,w,a->a,eOp(op,w,a->b),eOp(op,w,a->c));
  else if((op==E_ADD||op==E_SUB||op==E_AND||op==E_OR||op==E_XOR||op==E_SHL||op==E_LSHR||op==E_MUL)&&isC(b)&&a->op==E_ITE&&isC(a->b)&&isC(a->c)&&w>1)
    return eOp(E_ITE,w,a->a,eOp(op,w,a->b,b),eOp(op,w,a->c,b));
  Expr t=mkT(op,w); t.a=a;t.b=b;t.c=c;t.lo=lo;t.sup=s; t.hm=op==E_MUL||op==E_UDIV||op==E_UREM||a->hm||(b&&b->hm)||(c&&c->hm); return X.intern(t);
}

static u128 ev(Expr*e,const u64*model){
  if(e->op==E_CONST) return cval(e);
  if(e->op==E_UN) return e->tab[model[e->var]&255];
  if(e->op==E_VAR) return model[e->var]&mask128(e->w);
  if(e->evstamp==evalStamp) return e->ev;
  u128 r;
  if(e->op==E_CONCAT) r=(ev(e->a,model)<<e->b->w)|ev(e->b,model);
  else if(e->op==E_ITE) r=ev(e->a,model)? ev(e->b,model):ev(e->c,model);
  else r=evalOp(e->op,e->w,e->a->w,ev(e->a,model),e->b?ev(e->b,model):0,e->c?ev(e->c,model):0,e->lo);
  e->ev=r; e->evstamp=evalStamp; return r;
}
u128 evalE(Expr*e,const u64*model){ evalStamp++; return ev(e,model); }
