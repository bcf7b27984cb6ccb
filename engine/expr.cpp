#include "expr.h"
#include <cfenv>
std::vector<VarInfo> VARS;
struct Key { EK k; uint8_t w; uint64_t val; E a, b, c;
  bool operator==(const Key& o) const { return k==o.k&&w==o.w&&val==o.val&&a==o.a&&b==o.b&&c==o.c; } };
struct KH { size_t operator()(const Key& k) const {
  uint64_t h = k.k*0x9E3779B97F4A7C15ull + k.w; auto mix=[&](uint64_t x){ h ^= x + 0x9E3779B97F4A7C15ull + (h<<6) + (h>>2); h*=0xff51afd7ed558ccdull; h^=h>>29; };
  mix(k.val); mix((uint64_t)k.a); mix((uint64_t)k.b); mix((uint64_t)k.c); return h; } };
static std::unordered_map<Key, E, KH> TAB;
static uint32_t NEXT = 1;
static bool isFPk(EK k) { return k >= KFAdd; }
static void setRange(Expr* e) {
  uint64_t m=maskw(e->w); e->lo=0; e->hi=m; E a=e->a, b=e->b; unsigned __int128 t;
  switch (e->k) {
  case KConst: e->lo=e->hi=e->val; break;
  case KZExt: e->lo=a->lo; e->hi=a->hi; break;
  case KURem: if (b->k==KConst&&b->val) { e->hi=b->val-1; if (a->hi<b->val) { e->lo=a->lo; e->hi=a->hi; } } else e->hi=a->hi; break;
  case KUDiv: if (b->k==KConst&&b->val) { e->lo=a->lo/b->val; e->hi=a->hi/b->val; } break;
  case KLShr: if (b->k==KConst&&b->val<e->w) { e->lo=a->lo>>b->val; e->hi=a->hi>>b->val; } break;
  case KAnd: e->hi=std::min(a->hi,b->hi); break;
  case KAdd: t=(unsigned __int128)a->hi+b->hi; if (t<=m) { e->lo=a->lo+b->lo; e->hi=(uint64_t)t; }
    else if (b->k==KConst && (unsigned __int128)a->lo+b->val>m && ((unsigned __int128)a->hi+b->val-m-1)<=m) { e->lo=(a->lo+b->val)&m; e->hi=(a->hi+b->val)&m; } break;   // wraps for every value
  case KSub: if (a->lo>=b->hi) { e->lo=a->lo-b->hi; e->hi=a->hi-b->lo; } break;
  case KMul: t=(unsigned __int128)a->hi*b->hi; if (t<=m) { e->lo=a->lo*b->lo; e->hi=(uint64_t)t; } break;
  case KShl: if (b->k==KConst&&b->val<e->w) { t=(unsigned __int128)a->hi<<b->val; if (t<=m) { e->lo=a->lo<<b->val; e->hi=(uint64_t)t; } } break;
  case KIte: e->lo=std::min(b->lo,e->c->lo); e->hi=std::max(b->hi,e->c->hi); break;
  case KSExt: if (a->hi<=(maskw(a->w)>>1)) { e->lo=a->lo; e->hi=a->hi; } break;
  case KConcat: e->lo=(a->lo<<b->w)|b->lo; e->hi=(a->hi<<b->w)|b->hi; break;
  case KExtract: if (e->val==0&&a->hi<=m) { e->lo=a->lo; e->hi=a->hi; } break;
  default: break; }
}
static E intern(EK k, unsigned w, uint64_t val, E a=nullptr, E b=nullptr, E c=nullptr) {
  Key key{k,(uint8_t)w,val,a,b,c};
  auto it = TAB.find(key); if (it != TAB.end()) return it->second;
  Expr* e = new Expr(); e->k=k; e->w=w; e->val=val; e->a=a; e->b=b; e->c=c; e->id=NEXT++;
  e->taint = (a&&a->taint)||(b&&b->taint)||(c&&c->taint); e->fp = isFPk(k)||(a&&a->fp)||(b&&b->fp)||(c&&c->fp);
  e->vars=nullptr; e->zv=e->zb=e->zf=nullptr; e->epoch=0; e->ev=0;
  if (k==KVar) e->taint = VARS[val].uninit;
  setRange(e);
  TAB[key]=e; return e;
}
E mkConst(uint64_t v, unsigned w) { return intern(KConst, w, v & maskw(w)); }
E mkVar(const std::string& n, unsigned w, bool u, bool uf) { VARS.push_back({n,(uint8_t)w,u,uf}); return intern(KVar, w, VARS.size()-1); }
static inline float f32(uint64_t v){ uint32_t x=(uint32_t)v; float f; memcpy(&f,&x,4); return f; }
static inline double f64(uint64_t v){ double f; memcpy(&f,&v,8); return f; }
static inline uint64_t b32(float f){ uint32_t x; memcpy(&x,&f,4); return x; }
static inline uint64_t b64(double f){ uint64_t x; memcpy(&x,&f,8); return x; }
uint64_t foldBin(EK k, uint64_t a, uint64_t b, unsigned w) {
  uint64_t m = maskw(w); a&=m; b&=m;
  switch (k) {
  case KAdd: return (a+b)&m; case KSub: return (a-b)&m; case KMul: return (a*b)&m;
  case KUDiv: return b? a/b : m; case KURem: return b? a%b : a;
  case KSDiv: { int64_t x=sx(a,w), y=sx(b,w); if(!y) return (x<0?1:m)&m; if (y==-1) return (0-a)&m; return (uint64_t)(x/y)&m; }
  case KSRem: { int64_t x=sx(a,w), y=sx(b,w); if(!y) return a; if (y==-1) return 0; return (uint64_t)(x%y)&m; }
  case KAnd: return a&b; case KOr: return a|b; case KXor: return a^b;
  case KShl: return b>=w?0:(a<<b)&m; case KLShr: return b>=w?0:a>>b;
  case KAShr: { int64_t x=sx(a,w); unsigned s=b>=w?w-1:b; return (uint64_t)(x>>s)&m; }
  case KEq: return a==b; case KUlt: return a<b; case KUle: return a<=b;
  case KSlt: return sx(a,w)<sx(b,w); case KSle: return sx(a,w)<=sx(b,w);
  case KFAdd: return w==32?b32(f32(a)+f32(b)):b64(f64(a)+f64(b));
  case KFSub: return w==32?b32(f32(a)-f32(b)):b64(f64(a)-f64(b));
  case KFMul: return w==32?b32(f32(a)*f32(b)):b64(f64(a)*f64(b));
  case KFDiv: return w==32?b32(f32(a)/f32(b)):b64(f64(a)/f64(b));
  case KFOeq: return w==32?f32(a)==f32(b):f64(a)==f64(b);
  case KFOlt: return w==32?f32(a)<f32(b):f64(a)<f64(b);
  case KFOle: return w==32?f32(a)<=f32(b):f64(a)<=f64(b);
  case KFUno: return w==32?(std::isnan(f32(a))||std::isnan(f32(b))):(std::isnan(f64(a))||std::isnan(f64(b)));
  default: abort();
  }
}
uint64_t foldUn(EK k, uint64_t a, unsigned wa, unsigned w, uint64_t val) {
  a &= maskw(wa);
  switch (k) {
  case KExtract: return (a>>val)&maskw(w);
  case KZExt: return a; case KSExt: return (uint64_t)sx(a,wa)&maskw(w);
  case KFExt: return b64((double)f32(a)); case KFTrunc: return b32((float)f64(a));
  case KSIToFP: return w==32?b32((float)sx(a,wa)):b64((double)sx(a,wa));
  case KUIToFP: return w==32?b32((float)a):b64((double)a);
  case KFPToSI: { double d = wa==32?f32(a):f64(a); double lim = ldexp(1.0,w-1);
      if (std::isnan(d)||!(d < lim)||!(d > -lim-1.0 || d==-lim)) return 1ull<<(w-1); return (uint64_t)(int64_t)d & maskw(w); }
  case KFPToUI: { double d = wa==32?f32(a):f64(a); double lim=ldexp(1.0,w); if (std::isnan(d)||!(d<lim)||!(d>-1.0)) return w==64?1ull<<63:0; return (uint64_t)d & maskw(w); }
  case KFSqrt: return wa==32?b32(sqrtf(f32(a))):b64(sqrt(f64(a)));
  case KFRti: { double d = wa==32?f32(a):f64(a); double r = val==0?floor(d):val==1?ceil(d):val==2?round(d):val==3?trunc(d):nearbyint(d); return wa==32?b32((float)r):b64(r); }
  default: abort();
  }
}
static bool cmpk(EK k){ return (k>=KEq&&k<=KSle)||(k>=KFOeq&&k<=KFUno); }
E mkUn(EK k, E a, unsigned w, uint64_t val) {
  if (a->k==KConst) return mkConst(foldUn(k,a->val,a->w,w,val),w);
  return intern(k,w,val,a);
}
E mkZExt(E a, unsigned w) { if (a->w==w) return a; if (a->k==KConst) return mkConst(a->val,w); if (a->k==KZExt) return mkZExt(a->a,w); return intern(KZExt,w,0,a); }
E mkSExt(E a, unsigned w) { if (a->w==w) return a; if (a->k==KConst) return mkConst((uint64_t)sx(a->val,a->w),w); if (a->k==KSExt) return mkSExt(a->a,w); if (a->k==KZExt && a->a->w<a->w) return mkZExt(a->a,w); return intern(KSExt,w,0,a); }
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo==0 && w==a->w) return a;
  if (a->k==KConst) return mkConst(a->val>>lo,w);
  if (a->k==KExtract) return mkExtract(a->a, lo+a->val, w);
  if (a->k==KConcat) { unsigned lw=a->b->w; if (lo+w<=lw) return mkExtract(a->b,lo,w); if (lo>=lw) return mkExtract(a->a,lo-lw,w);
     return mkConcat(mkExtract(a->a,0,lo+w-lw), mkExtract(a->b,lo,lw-lo)); }
  if (a->k==KZExt) { unsigned iw=a->a->w; if (lo>=iw) return mkConst(0,w); if (lo+w<=iw) return mkExtract(a->a,lo,w); return mkZExt(mkExtract(a->a,lo,iw-lo),w); }
  if (a->k==KSExt) { unsigned iw=a->a->w; if (lo+w<=iw) return mkExtract(a->a,lo,w); if (lo==0) return mkSExt(a->a,w); }
  if (a->k==KIte && a->b->k==KConst && a->c->k==KConst) return mkIte(a->a, mkExtract(a->b,lo,w), mkExtract(a->c,lo,w));
  if ((a->k==KAnd||a->k==KOr||a->k==KXor) && (a->b->k==KConst)) return mkBin(a->k, mkExtract(a->a,lo,w), mkExtract(a->b,lo,w));
  if (lo==0 && (a->k==KAdd||a->k==KSub||a->k==KMul)) return mkBin(a->k, mkExtract(a->a,0,w), mkExtract(a->b,0,w));
  if (a->k==KShl && a->b->k==KConst) { unsigned s=a->b->val; if (s>=a->w||lo+w<=s) return mkConst(0,w); if (lo>=s) return mkExtract(a->a,lo-s,w); }
  if (a->k==KLShr && a->b->k==KConst) { unsigned s=a->b->val; if (lo+s>=a->w) return mkConst(0,w); if (lo+s+w<=a->w) return mkExtract(a->a,lo+s,w); }
  return intern(KExtract,w,lo,a);
}
E mkConcat(E h, E l) {
  unsigned w=h->w+l->w;
  if (h->k==KConst&&l->k==KConst) return mkConst((h->val<<l->w)|l->val,w);
  if (h->k==KConst&&h->val==0) return mkZExt(l,w);
  if (h->k==KExtract&&l->k==KExtract&&h->a==l->a&&h->val==l->val+l->w) return mkExtract(h->a,l->val,w);
  if (h->k==KExtract&&h->val>=l->w&&mkExtract(h->a,h->val-l->w,l->w)==l) return mkExtract(h->a,h->val-l->w,w);   // mkExtract may have distributed over the operator below
  if (l->k==KConcat) { E lh=l->a; if (h->k==KExtract&&lh->k==KExtract&&h->a==lh->a&&h->val==lh->val+lh->w) return mkConcat(mkExtract(h->a,lh->val,h->w+lh->w), l->b); }
  // pieces of a zero extension
  if (l->k==KExtract && h->k==KZExt && h->a->k==KExtract && h->a->a==l->a && h->a->val==l->val+l->w) return mkZExt(mkConcat(h->a,l),w);
  return intern(KConcat,w,0,h,l);
}
E mkIte(E c, E a, E b) {
  if (c->k==KConst) return c->val?a:b; if (a==b) return a;
  if (a->w==1 && a->k==KConst && b->k==KConst) return a->val? c : mkNot(c);
  return intern(KIte,a->w,0,c,a,b);
}
// signed interval of e, if narrower than its width says
static bool srange(E e, int64_t& lo, int64_t& hi) {
  if (e->w>32) return false;
  if (e->k==KAdd&&e->b->k==KConst) { int64_t c=sx(e->b->val,e->w); if (!srange(e->a,lo,hi)) return false; lo+=c; hi+=c; return lo>=-(1ll<<(e->w-1))&&hi<(1ll<<(e->w-1)); }
  if (e->k==KSExt&&e->a->w<e->w) { if (!srange(e->a,lo,hi)) { hi=(1ll<<(e->a->w-1))-1; lo=-hi-1; } return true; }
  if (e->hi<(1ull<<(e->w-1))) { lo=(int64_t)e->lo; hi=(int64_t)e->hi; return true; }
  return false;
}
static bool linOp(E e) { return e->k==KAdd||e->k==KSub||(e->k==KExtract&&!e->val); }
/* low w bits of coef*e as constant + sum of terms; false when too large */
static bool lin(E e, unsigned w, uint64_t coef, std::vector<std::pair<E,uint64_t>>& t, uint64_t& cst, unsigned& bud) {
  if (!bud--) return false;
  switch (e->k) {
    case KConst: cst+=coef*e->val; return true;
    case KAdd: return lin(e->a,w,coef,t,cst,bud)&&lin(e->b,w,coef,t,cst,bud);
    case KSub: return lin(e->a,w,coef,t,cst,bud)&&lin(e->b,w,0-coef,t,cst,bud);
    case KMul: if (e->b->k==KConst) return lin(e->a,w,coef*e->b->val,t,cst,bud); break;
    case KShl: if (e->b->k==KConst&&e->b->val<e->w) return lin(e->a,w,coef<<e->b->val,t,cst,bud); break;
    case KExtract: if (!e->val) return lin(e->a,w,coef,t,cst,bud); break;
    case KSExt: case KZExt: if (e->a->w>=w) return lin(e->a,w,coef,t,cst,bud); break;
    default: break; }
  E k=e->w==w?e:mkExtract(e,0,w); for (auto& q:t) if (q.first==k) { q.second+=coef; return true; }
  t.push_back({k,coef}); return true; }
E mkBin(EK k, E a, E b) {
  unsigned w=a->w; unsigned rw = cmpk(k)?1:w;
  if (a->w!=b->w) { fprintf(stderr,"width mismatch %d %d %d\n",k,a->w,b->w); abort(); }
  if (a->k==KConst&&b->k==KConst) return mkConst(foldBin(k,a->val,b->val,w),rw);
  if (k>=KFOeq&&k<=KFUno&&w==64) { // comparison of widened floats: compare the floats
    auto nar=[](E e)->E{ if (e->k==KFExt) return e->a; if (e->k==KConst) { double d=f64(e->val); if (d==d && (double)(float)d==d) return mkConst(b32((float)d),32); } return nullptr; };
    if (a->k==KFExt||b->k==KFExt) { E x=nar(a), y=nar(b); if (x&&y) return mkBin(k,x,y); } }
  bool comm = k==KAdd||k==KMul||k==KAnd||k==KOr||k==KXor||k==KEq||k==KFAdd||k==KFMul||k==KFOeq;   // (NaN payloads are not modelled)
  if (comm && (a->k==KConst || (b->k!=KConst && a->id>b->id))) std::swap(a,b);   // constants right
  if (b->k==KConst) {
    uint64_t v=b->val;
    switch(k){
    case KAdd: if(!v) return a; if (a->k==KAdd&&a->b->k==KConst) return mkBin(KAdd,a->a,mkConst(a->b->val+v,w)); break;
    case KSub: if(!v) return a; return mkBin(KAdd,a,mkConst(0-v,w));
    case KMul: if(!v) return b; if(v==1) return a; break;
    case KAnd: if(!v) return b; if(v==maskw(w)) return a; 
       if ((v&(v+1))==0 && w>1) { unsigned n=__builtin_popcountll(v); return mkZExt(mkExtract(a,0,n),w);} break;
    case KOr: if(!v) return a; if (v==maskw(w)) return b; break;
    case KXor: if(!v) return a;
       if (w==1) { // boolean negation
         if (a->k==KXor && a->b->k==KConst) return a->a;
         if (a->k==KUlt) return mkBin(KUle,a->b,a->a); if (a->k==KUle) return mkBin(KUlt,a->b,a->a);
         if (a->k==KSlt) return mkBin(KSle,a->b,a->a); if (a->k==KSle) return mkBin(KSlt,a->b,a->a); }
       break;
    case KShl: case KLShr: case KAShr: if(!v) return a; break;
    case KUDiv: case KSDiv: if (v==1) return a; /* fallthrough */
    case KURem: case KSRem: { // divide in as few bits as the operands need
      bool sg=k==KSDiv||k==KSRem; if (!v) break;
      if (sg) { int64_t lo,hi,c=sx(v,w); if (c>0&&srange(a,lo,hi)) { if (lo>=0) return mkBin(k==KSDiv?KUDiv:KURem,a,b); unsigned n=2; while (n<w&&(hi>=(1ll<<(n-1))||lo< -(1ll<<(n-1))||c>=(1ll<<(n-1)))) n++; if (n<w) return mkSExt(mkBin(k,mkExtract(a,0,n),mkConst(v,n)),w); } }
      else { uint64_t mx=a->hi>v?a->hi:v; unsigned n=1; while (n<w&&(mx>>n)) n++; if (n<w) return mkZExt(mkBin(k,mkExtract(a,0,n),mkConst(v,n)),w); }
      break; }
    case KEq:
      if (w==1) return v? a : mkNot(a);
      if (a->k==KZExt) { if (v>maskw(a->a->w)) return mkConst(0,1); return mkBin(KEq,a->a,mkConst(v,a->a->w)); }
      if (a->k==KSExt) { uint64_t t=v&maskw(a->a->w); if (((uint64_t)sx(t,a->a->w)&maskw(w))!=v) return mkConst(0,1); return mkBin(KEq,a->a,mkConst(t,a->a->w)); }
      if (a->k==KAdd&&a->b->k==KConst) return mkBin(KEq,a->a,mkConst(v-a->b->val,w));
      if (a->k==KXor&&a->b->k==KConst) return mkBin(KEq,a->a,mkConst(v^a->b->val,w));
      if (a->k==KConcat) { E l=mkBin(KEq,a->b,mkConst(v,a->b->w)); E h=mkBin(KEq,a->a,mkConst(v>>a->b->w,a->a->w)); return mkBin(KAnd,h,l); }
      if (a->k==KIte&&a->b->k==KConst&&a->c->k==KConst) { bool x=a->b->val==v,y=a->c->val==v; if(x&&y) return mkConst(1,1); if(!x&&!y) return mkConst(0,1); return x? a->a : mkNot(a->a); }
      break;
    case KUlt: if(!v) return mkConst(0,1); if (v==1) return mkBin(KEq,a,mkConst(0,w)); 
      if (a->k==KZExt) { if (v>maskw(a->a->w)) return mkConst(1,1); return mkBin(KUlt,a->a,mkConst(v,a->a->w)); } break;
    case KUle: if (v==maskw(w)) return mkConst(1,1); if(!v) return mkBin(KEq,a,b); if (a->k==KZExt) { if (v>=maskw(a->a->w)) return mkConst(1,1); return mkBin(KUle,a->a,mkConst(v,a->a->w)); } break;
    case KSlt: if (a->k==KZExt && a->a->w<w) { if (sx(v,w)<=0) return mkConst(0,1); return mkBin(KUlt,a,b);} break;
    case KSle: if (a->k==KZExt && a->a->w<w) { if (sx(v,w)<0) return mkConst(0,1); return mkBin(KUle,a,b);} break;
    default: break; }
  } else if (a->k==KConst) {
    uint64_t v=a->val;
    switch(k){
    case KShl: case KLShr: case KURem: case KUDiv: if(!v) return a; break;
    case KUlt: if (b->k==KZExt) { if (v>=maskw(b->a->w)) return mkConst(0,1); return mkBin(KUlt,mkConst(v,b->a->w),b->a);} if (v==maskw(w)) return mkConst(0,1); break;
    case KUle: if(!v) return mkConst(1,1); if (b->k==KZExt) { if (v>maskw(b->a->w)) return mkConst(0,1); return mkBin(KUle,mkConst(v,b->a->w),b->a);} break;
    case KSlt: if (b->k==KZExt && b->a->w<w) { if (sx(v,w)<0) return mkConst(1,1); return mkBin(KUlt,a,b);} break;
    case KSle: if (b->k==KZExt && b->a->w<w) { if (sx(v,w)<=0) return mkConst(1,1); return mkBin(KUle,a,b);} break;
    default: break; }
  } else if (a==b) {
    switch(k){ case KSub: case KXor: return mkConst(0,w); case KAnd: case KOr: return a;
      case KEq: case KUle: case KSle: return mkConst(1,1); case KUlt: case KSlt: return mkConst(0,1); default: break; }
  }
  if (w==1 && (k==KAnd||k==KOr) && ((a->k==KXor&&a->b->k==KConst&&a->a==b)||(b->k==KXor&&b->b->k==KConst&&b->a==a))) return mkConst(k==KOr,1);
  if (k==KEq && a->k==KZExt && b->k==KZExt && a->a->w==b->a->w) return mkBin(KEq,a->a,b->a);
  if (k==KEq && a->w>1 && !a->fp && !b->fp && (linOp(a)||linOp(b))) {   // linear terms modulo 2^w: decide a-b syntactically when everything cancels
    std::vector<std::pair<E,uint64_t>> t; uint64_t cst=0; unsigned bud=64;
    if (lin(a,a->w,1,t,cst,bud)&&lin(b,a->w,~0ull,t,cst,bud)) { bool zero=true; for (auto& q:t) if (q.second&maskw(a->w)) { zero=false; break; } if (zero) return mkConst((cst&maskw(a->w))==0,1); } }
  if (k==KEq && a->k==KSExt && b->k==KSExt && a->a->w==b->a->w) return mkBin(KEq,a->a,b->a);
  if (k==KUlt && a->k==KZExt && b->k==KZExt && a->a->w==b->a->w) return mkBin(KUlt,a->a,b->a);
  if (k==KUle && a->k==KZExt && b->k==KZExt && a->a->w==b->a->w) return mkBin(KUle,a->a,b->a);
  { uint64_t h=maskw(w)>>1; bool nn=a->hi<=h&&b->hi<=h;
    EK q=k; if (nn&&k==KSlt) q=KUlt; if (nn&&k==KSle) q=KUle;
    if (q==KUlt) { if (a->hi<b->lo) return mkConst(1,1); if (a->lo>=b->hi) return mkConst(0,1); }
    if (q==KUle) { if (a->hi<=b->lo) return mkConst(1,1); if (a->lo>b->hi) return mkConst(0,1); }
    if (q==KEq && (a->hi<b->lo||b->hi<a->lo)) return mkConst(0,1); }
  // (concat(0,x) | shl) byte assembly: or of disjoint shifted zexts
  if (k==KOr||k==KAdd) {
    auto shl=[&](E e,unsigned&s,E&base){ if (e->k==KShl&&e->b->k==KConst&&e->a->k==KZExt){ s=e->b->val; base=e->a->a; return s+base->w<=e->w; } if (e->k==KZExt){ s=0; base=e->a; return true;} return false; };
    unsigned s1,s2; E b1,b2;
    if (shl(a,s1,b1)&&shl(b,s2,b2)) { if (s1<s2){ std::swap(s1,s2); std::swap(b1,b2);} 
      if (s2==0 && b2->w<=s1) { E lo = b2->w==s1?b2:mkZExt(b2,s1); return mkZExt(mkConcat(b1,lo),w); } }
  }
  return intern(k,rw,0,a,b);
}
const std::vector<uint32_t>& varsOf(E e) {
  if (e->vars) return *e->vars;
  auto* v = new std::vector<uint32_t>();
  if (e->k==KVar) v->push_back(e->val);
  else { for (E x : {e->a,e->b,e->c}) if (x) { auto& y=varsOf(x); v->insert(v->end(),y.begin(),y.end()); }
    std::sort(v->begin(),v->end()); v->erase(std::unique(v->begin(),v->end()),v->end()); }
  e->vars=v; return *v;
}
static uint64_t EPOCH=1;
void newEvalEpoch(){ EPOCH++; }
static uint64_t evalR(E e, const Model& m) {
  if (e->k==KConst) return e->val;
  if (e->k==KVar) return e->val<m.size()? m[e->val]&maskw(e->w) : 0;
  if (e->epoch==EPOCH) return e->ev;
  uint64_t r;
  if (e->k==KIte) r = evalR(e->a,m)? evalR(e->b,m):evalR(e->c,m);
  else if (e->k==KConcat) r = (evalR(e->a,m)<<e->b->w)|evalR(e->b,m);
  else if (e->b) r = foldBin(e->k,evalR(e->a,m),evalR(e->b,m),e->a->w);
  else r = foldUn(e->k,evalR(e->a,m),e->a->w,e->w,e->val);
  e->epoch=EPOCH; e->ev=r; return r;
}
uint64_t evalE(E e, const Model& m) { EPOCH++; return evalR(e,m); }
std::string exprStr(E e,int d) {
  static const char* N[]={"c","v","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","foeq","folt","fole","funo","fext","ftrunc","sitofp","uitofp","fptosi","fptoui","fsqrt","frti"};
  if (e->k==KConst) return std::to_string(e->val); if (e->k==KVar) return VARS[e->val].name+"#"+std::to_string(e->val);
  if (!d) return "...";
  std::string s="("; s+=N[e->k]; if(e->k==KExtract) s+=" "+std::to_string(e->val)+":"+std::to_string(e->w);
  for (E x : {e->a,e->b,e->c}) if (x) s+=" "+exprStr(x,d-1); return s+")";
}
// ---------------------------------------------------------------- Z3 lowering
void Lower::init() {
  Z3_config cfg=Z3_mk_config(); Z3_set_param_value(cfg,"model","true"); c=Z3_mk_context(cfg); Z3_del_config(cfg);
  f32=Z3_mk_fpa_sort_32(c); f64=Z3_mk_fpa_sort_64(c);
  rne=Z3_mk_fpa_rne(c); rtz=Z3_mk_fpa_rtz(c); rtp=Z3_mk_fpa_rtp(c); rtn=Z3_mk_fpa_rtn(c); rna=Z3_mk_fpa_rna(c);
}
Z3_ast Lower::var(uint32_t i) {
  if (vcache.size()<=i) vcache.resize(i+1,nullptr);
  if (!vcache[i]) { std::string n="v"+std::to_string(i); vcache[i]=Z3_mk_const(c,Z3_mk_string_symbol(c,n.c_str()),Z3_mk_bv_sort(c,VARS[i].w)); }
  return vcache[i];
}
static bool fpResult(EK k){ return k==KFAdd||k==KFSub||k==KFMul||k==KFDiv||k==KFExt||k==KFTrunc||k==KSIToFP||k==KUIToFP||k==KFSqrt||k==KFRti; }
Z3_ast Lower::fp(E e) {
  if (e->zf) return e->zf;
  Z3_sort s = e->w==32?f32:f64; Z3_ast r;
  switch(e->k){
  case KFAdd: r=Z3_mk_fpa_add(c,rne,fp(e->a),fp(e->b)); break;
  case KFSub: r=Z3_mk_fpa_sub(c,rne,fp(e->a),fp(e->b)); break;
  case KFMul: r=Z3_mk_fpa_mul(c,rne,fp(e->a),fp(e->b)); break;
  case KFDiv: r=Z3_mk_fpa_div(c,rne,fp(e->a),fp(e->b)); break;
  case KFExt: case KFTrunc: r=Z3_mk_fpa_to_fp_float(c,rne,fp(e->a),s); break;
  case KSIToFP: r=Z3_mk_fpa_to_fp_signed(c,rne,bv(e->a),s); break;
  case KUIToFP: r=Z3_mk_fpa_to_fp_unsigned(c,rne,bv(e->a),s); break;
  case KFSqrt: r=Z3_mk_fpa_sqrt(c,rne,fp(e->a)); break;
  case KFRti: { Z3_ast ms[]={rtn,rtp,rna,rtz,rne}; r=Z3_mk_fpa_round_to_integral(c,ms[e->val],fp(e->a)); break; }
  case KIte: if (e->b->fp||e->c->fp) { r=Z3_mk_ite(c,bo(e->a),fp(e->b),fp(e->c)); break; } /* fallthrough */
  default: r=Z3_mk_fpa_to_fp_bv(c,bv(e),s); }
  return e->zf=r;
}
Z3_ast Lower::bo(E e) {
  if (e->zb) return e->zb; Z3_ast r;
  switch(e->k){
  case KConst: r=e->val?Z3_mk_true(c):Z3_mk_false(c); break;
  case KEq: r= e->a->w==1? Z3_mk_iff(c,bo(e->a),bo(e->b)) : Z3_mk_eq(c,bv(e->a),bv(e->b)); break;
  case KUlt: r=Z3_mk_bvult(c,bv(e->a),bv(e->b)); break; case KUle: r=Z3_mk_bvule(c,bv(e->a),bv(e->b)); break;
  case KSlt: r=Z3_mk_bvslt(c,bv(e->a),bv(e->b)); break; case KSle: r=Z3_mk_bvsle(c,bv(e->a),bv(e->b)); break;
  case KFOeq: r=Z3_mk_fpa_eq(c,fp(e->a),fp(e->b)); break; case KFOlt: r=Z3_mk_fpa_lt(c,fp(e->a),fp(e->b)); break;
  case KFOle: r=Z3_mk_fpa_leq(c,fp(e->a),fp(e->b)); break;
  case KFUno: { Z3_ast x[2]={Z3_mk_fpa_is_nan(c,fp(e->a)),Z3_mk_fpa_is_nan(c,fp(e->b))}; r=Z3_mk_or(c,2,x); break; }
  case KAnd: { Z3_ast x[2]={bo(e->a),bo(e->b)}; r=Z3_mk_and(c,2,x); break; }
  case KOr: { Z3_ast x[2]={bo(e->a),bo(e->b)}; r=Z3_mk_or(c,2,x); break; }
  case KXor: if (e->b->k==KConst) r=Z3_mk_not(c,bo(e->a)); else r=Z3_mk_xor(c,bo(e->a),bo(e->b)); break;
  case KIte: r=Z3_mk_ite(c,bo(e->a),bo(e->b),bo(e->c)); break;
  default: r=Z3_mk_eq(c,bv(e),Z3_mk_unsigned_int64(c,1,Z3_mk_bv_sort(c,1))); }
  return e->zb=r;
}
Z3_ast Lower::bv(E e) {
  if (e->zv) return e->zv; Z3_ast r;
  auto cst=[&](uint64_t v,unsigned w){ return Z3_mk_unsigned_int64(c,v,Z3_mk_bv_sort(c,w)); };
  bool isb = cmpk(e->k) || (e->w==1 && (e->k==KAnd||e->k==KOr||e->k==KXor));
  if (isb) r=Z3_mk_ite(c,bo(e),cst(1,1),cst(0,1));
  else switch(e->k){
  case KConst: r=cst(e->val,e->w); break; case KVar: r=var(e->val); break;
#define B(K,F) case K: r=F(c,bv(e->a),bv(e->b)); break;
  B(KAdd,Z3_mk_bvadd) B(KSub,Z3_mk_bvsub) B(KMul,Z3_mk_bvmul) B(KUDiv,Z3_mk_bvudiv) B(KSDiv,Z3_mk_bvsdiv) B(KURem,Z3_mk_bvurem) B(KSRem,Z3_mk_bvsrem)
  B(KAnd,Z3_mk_bvand) B(KOr,Z3_mk_bvor) B(KXor,Z3_mk_bvxor) B(KShl,Z3_mk_bvshl) B(KLShr,Z3_mk_bvlshr) B(KAShr,Z3_mk_bvashr) B(KConcat,Z3_mk_concat)
  case KIte: r=Z3_mk_ite(c,bo(e->a),bv(e->b),bv(e->c)); break;
  case KExtract: r=Z3_mk_extract(c,e->val+e->w-1,e->val,bv(e->a)); break;
  case KZExt: r=Z3_mk_zero_ext(c,e->w-e->a->w,bv(e->a)); break;
  case KSExt: r=Z3_mk_sign_ext(c,e->w-e->a->w,bv(e->a)); break;
  case KFPToSI: case KFPToUI: { /* on the bit pattern: truncation towards zero, x86 result when out of range */
     unsigned aw=e->a->w, eb=aw==32?8:11, sb=aw==32?23:52, W=64; uint64_t bias=aw==32?127:1023; Z3_ast x=bv(e->a);
     Z3_ast ex=Z3_mk_zero_ext(c,W-eb,Z3_mk_extract(c,sb+eb-1,sb,x)), neg=Z3_mk_eq(c,Z3_mk_extract(c,aw-1,aw-1,x),cst(1,1));
     Z3_ast m=Z3_mk_concat(c,cst(1,W-sb),Z3_mk_extract(c,sb-1,0,x)), k=cst(bias+sb,W);
     Z3_ast mag=Z3_mk_ite(c,Z3_mk_bvuge(c,ex,k),Z3_mk_bvshl(c,m,Z3_mk_bvsub(c,ex,k)),Z3_mk_bvlshr(c,m,Z3_mk_bvsub(c,k,ex)));
     mag=Z3_mk_ite(c,Z3_mk_bvult(c,ex,cst(bias,W)),cst(0,W),mag); unsigned lim=e->k==KFPToSI?e->w-1:e->w;
     Z3_ast ok=Z3_mk_bvult(c,ex,cst(bias+lim,W)), v, out;
     if (e->k==KFPToSI) { v=Z3_mk_ite(c,neg,Z3_mk_bvneg(c,mag),mag); out=cst(1ull<<(e->w-1),e->w); }
     else { v=mag; out=cst(e->w==64?1ull<<63:0,e->w); Z3_ast z[2]={Z3_mk_not(c,neg),Z3_mk_eq(c,mag,cst(0,W))}, a2[2]={ok,Z3_mk_or(c,2,z)}; ok=Z3_mk_and(c,2,a2); }
     if (e->w<W) v=Z3_mk_extract(c,e->w-1,0,v); r=Z3_mk_ite(c,ok,v,out); break; }
  default: if (fpResult(e->k)) { r=Z3_mk_fpa_to_ieee_bv(c,fp(e)); break; } fprintf(stderr,"lower %d\n",e->k); abort(); }
  return e->zv=r;
}
