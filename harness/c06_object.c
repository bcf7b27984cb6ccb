// Buzz values across the wire: encode on one robot, decode on another whose string ids differ.
// QUICK scalar -DSCALAR time=300 reach=int,flt,str,nil,fun
// QUICK table  -DNE=2 -DNN=1 -DDEPTH=1 time=200 reach=nested
// QUICK keys   -DKEYS time=200
// QUICK big    -DBIG time=200
// QUICK seq    -DSEQN=2 time=200
// THOROUGH scalar -DSCALAR time=800
// THOROUGH table  -DNE=3 -DDEPTH=2 time=1500
// THOROUGH keys   -DKEYS time=800
// THOROUGH big    -DBIG time=800
// THOROUGH seq    -DSEQN=3 time=1500
#include "vmh.h"
static buzzvm_t A,B;
static int same(buzzobj_t a, buzzobj_t b);
struct it { buzzobj_t k[8],v[8]; int n; };
static void collect(const void* k, void* d, void* p) { struct it* i=p; if (i->n<8) { i->k[i->n]=*(buzzobj_t*)k; i->v[i->n]=*(buzzobj_t*)d; } i->n++; }
static int same(buzzobj_t a, buzzobj_t b) {
  if (a->o.type!=b->o.type) return 0;
  switch (a->o.type) {
    case BUZZTYPE_NIL: return 1;
    case BUZZTYPE_INT: return a->i.value==b->i.value;
    case BUZZTYPE_FLOAT: { uint32_t x=vf_fbits(a->f.value), y=vf_fbits(b->f.value); return x==y || ((x|y)&0x7fffffffu)==0; }
    case BUZZTYPE_STRING: return strcmp(a->s.value.str,b->s.value.str)==0;
    case BUZZTYPE_CLOSURE: return (!a->c.value.isnative)==(!b->c.value.isnative) && a->c.value.ref==b->c.value.ref;
    case BUZZTYPE_TABLE: { struct it x={.n=0}, y={.n=0}; buzzdict_foreach(a->t.value,collect,&x); buzzdict_foreach(b->t.value,collect,&y); if (x.n!=y.n||buzzdict_size(a->t.value)!=buzzdict_size(b->t.value)) return 0;
      for (int i=0;i<x.n&&i<8;i++) { int f=0; for (int j=0;j<y.n&&j<8;j++) if (same(x.k[i],y.k[j])) { f++; if (!same(x.v[i],y.v[j])) return 0; } if (f!=1) return 0; } return 1; }
  } return 0; }
static char sb[4];
static buzzobj_t value(int depth, int symf);
static buzzobj_t key(int i) { switch (vf_choose(0,5,"key")) { case 0: return vmh_int(A,3+i); case 1: return vmh_int(A,-13-i); case 2: return vmh_flt(A,2.5f+(float)i); case 3: return vmh_str(A,i?"k":"a"); case 4: return vmh_int(A,2147483647-i); default: return vmh_str(A,i?"":"longer key"); } }
#ifndef NE
#define NE 0
#endif
#ifndef NN
#define NN NE
#endif
static buzzobj_t value(int depth, int symf) {
  if (depth<0) return vf_choose(0,1,"leaf")?vmh_int(A,vf_i32("i")):vmh_str(A,"leaf");
  switch (vf_choose(symf?0:1,depth>0?5:4,"type")) {
    case 0: __vf_reach("nil"); return vmh_nil(A);
    case 1: __vf_reach("int"); return vmh_int(A,vf_i32("i"));
    case 2: { __vf_reach("flt"); float f; if (symf&&THOROUGH) { f=vf_f32("f"); __vf_assume(vf_finite(f)); } else f=vf_choose(0,1,"fsel")?-0.1f:1e30f; return vmh_flt(A,f); }
    case 3: { __vf_reach("str"); int n=vf_choose(0,symf?3:1,"len"); for (int i=0;i<n;i++) { sb[i]=(char)vf_u8("c"); __vf_assume(sb[i]!=0); if (!symf) __vf_assume((sb[i]|1)==0x61); } sb[n]=0; return vmh_str(A,sb); }
    case 4: { __vf_reach("fun"); int32_t r=vf_i32("ref"); return vmh_fun(A,r,vf_choose(0,1,"native")); }
    default: { __vf_reach("nested"); buzzobj_t t=vmh_tab(A); int n=vf_choose(0,NN,"n"); for (int i=0;i<n;i++) vmh_tput(A,t,i?vmh_int(A,13):key(0),value(depth>1?depth-1:-1,0)); return t; }
  } }
static void setup(void) { A=buzzvm_new(1); B=buzzvm_new(2); vmh_str(A,"pad"); for (int i=0;i<3;i++) vmh_str(B,i==0?"x":i==1?"y":"a"); }
static void trip(buzzobj_t o) {
  buzzdarray_t w=buzzdarray_new(1,sizeof(uint8_t),NULL); buzzobj_serialize(w,o); uint32_t n=buzzdarray_size(w); buzzmsg_serialize_u16(w,0xCAFE);
  buzzobj_t r=NULL; int64_t p=buzzobj_deserialize(&r,w,0,B); VF_ASSERTM(p==(int64_t)n,"decoding consumes exactly the encoded value"); VF_ASSERTM(r && same(o,r),"the decoded value equals the original");
  if (r->o.type==BUZZTYPE_STRING) VF_ASSERTM(buzzstrman_get(B->strings,r->s.value.sid)==r->s.value.str,"decoded strings belong to the receiver's string table");
  if (r->o.type==BUZZTYPE_CLOSURE) VF_ASSERTM(buzzdarray_size(r->c.value.actrec)==1,"a decoded function has an empty environment");
  __vf_out(n); buzzdarray_destroy(&w); }
#ifdef SCALAR
void vf_main(void) { setup(); trip(value(0,1)); buzzvm_destroy(&A); buzzvm_destroy(&B); }
#elif defined(KEYS)
// one-entry tables with an arbitrary integer key / two arbitrary small keys
void vf_main(void) { setup(); buzzobj_t t=vmh_tab(A); int32_t k=vf_choose(0,1,"wide")?vf_i32("k"):vf_range(-12,12,"k"); vmh_tput(A,t,vmh_int(A,k),vmh_int(A,vf_i32("v")));
  trip(t); buzzvm_destroy(&A); buzzvm_destroy(&B); }
#elif defined(BIG)
// table sizes up to what the format can carry
void vf_main(void) { setup(); static const int N[]={10,127,128,200,255}; int n=N[vf_choose(0,4,"n")]; buzzobj_t t=vmh_tab(A); int32_t v=vf_i32("v"); for (int i=0;i<n;i++) vmh_tput(A,t,vmh_int(A,i*7),vmh_int(A,i==n/2?v:i+1));
  buzzdarray_t w=buzzdarray_new(1,sizeof(uint8_t),NULL); buzzobj_serialize(w,t); buzzobj_t r=NULL; int64_t p=buzzobj_deserialize(&r,w,0,B); VF_ASSERTM(p==(int64_t)buzzdarray_size(w),"decoding consumes exactly the encoded value");
  VF_ASSERTM(r->o.type==BUZZTYPE_TABLE && (int)buzzdict_size(r->t.value)==n,"every entry arrives"); for (int i=0;i<n;i++) VF_ASSERTM(vmh_isi(vmh_tget(B,r,vmh_int(B,i*7)),i==n/2?v:i+1),"every entry keeps its value"); __vf_out(n); }
#elif defined(SEQN)
// several values in one message
void vf_main(void) { setup(); buzzdarray_t w=buzzdarray_new(1,sizeof(uint8_t),NULL); buzzobj_t o[SEQN]; for (int i=0;i<SEQN;i++) { o[i]=value(0,0); buzzobj_serialize(w,o[i]); }
  int64_t p=0; for (int i=0;i<SEQN;i++) { buzzobj_t r=NULL; p=buzzobj_deserialize(&r,w,(uint32_t)p,B); VF_ASSERTM(p>0&&same(o[i],r),"values in one message are restored in order"); } VF_ASSERTM(p==(int64_t)buzzdarray_size(w),"the message is consumed exactly"); __vf_out((uint64_t)p); }
#else
void vf_main(void) { setup(); buzzobj_t t=vmh_tab(A); int n=vf_choose(0,NE,"n"); for (int i=0;i<n;i++) vmh_tput(A,t,i<2?key(i):vmh_int(A,23),value(i==0?DEPTH:i==1?0:-1,0)); trip(t); buzzvm_destroy(&A); buzzvm_destroy(&B); }
#endif
