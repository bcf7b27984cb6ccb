// Decoders on arbitrary bytes: memory safe, terminate, and either refuse or yield a well-formed value.
// QUICK obj  -DN=6 time=300 reach=table,refused
// QUICK key  -DN=8 -DFIRST=4 time=300 reach=table
// QUICK elem -DELEM -DN=7 time=300 reach=refused,accepted
// QUICK raw  -DRAW -DN=5 time=200
// THOROUGH obj  -DN=9 time=1500
// THOROUGH key  -DN=11 -DFIRST=4 time=1500
// THOROUGH elem -DELEM -DN=10 time=1500
// THOROUGH raw  -DRAW -DN=9 time=800
#include "vmh.h"
static buzzvm_t vm;
static void wf(buzzobj_t o);
static void wfe(const void* k, void* d, void* p) { buzzobj_t o=*(buzzobj_t*)k; VF_ASSERTM(o->o.type==BUZZTYPE_INT||o->o.type==BUZZTYPE_FLOAT||o->o.type==BUZZTYPE_STRING,"decoded tables only have legal keys"); wf(o); wf(*(buzzobj_t*)d); (void)p; }
static void wf(buzzobj_t o) { VF_ASSERTM(o->o.type<=BUZZTYPE_CLOSURE,"decoded values have a transmissible type");
  if (o->o.type==BUZZTYPE_STRING) { VF_ASSERTM(o->s.value.str!=NULL && buzzstrman_get(vm->strings,o->s.value.sid)==o->s.value.str,"decoded strings are registered"); __vf_out(strlen(o->s.value.str)); }
  else if (o->o.type==BUZZTYPE_TABLE) { __vf_reach("table"); buzzdict_foreach(o->t.value,wfe,NULL); }
  else if (o->o.type==BUZZTYPE_CLOSURE) VF_ASSERTM(buzzdarray_size(o->c.value.actrec)==1,"decoded functions have a well-formed environment"); }
void vf_main(void) {
  vm=buzzvm_new(1); int n=vf_choose(0,N,"size"); uint8_t b[N+1]; 
  for (int i=0;i<n;i++) b[i]=vf_u8("b");
#ifdef FIRST
  if (n>0) b[0]=FIRST; if (n>1) __vf_assume(b[1]<=2);
#endif
  buzzdarray_t w=buzzdarray_frombuffer(b,(uint32_t)n,1,NULL); uint8_t copy[N+1]; memcpy(copy,b,sizeof copy>0?(size_t)n:0);
#ifdef RAW
  uint32_t pos=vf_u32("pos"); uint8_t x8; uint16_t x16; uint32_t x32; float f; char* s; int64_t r; uint64_t need;
  switch (vf_choose(0,4,"what")) { case 0: r=buzzmsg_deserialize_u8(&x8,w,pos); need=1; break; case 1: r=buzzmsg_deserialize_u16(&x16,w,pos); need=2; break; case 2: r=buzzmsg_deserialize_u32(&x32,w,pos); need=4; break; case 3: r=buzzmsg_deserialize_float(&f,w,pos); need=8; break;
    default: r=buzzmsg_deserialize_string(&s,w,pos); need=2; if (r>=0) { need=(uint64_t)(r-pos); VF_ASSERTM(strlen(s)<=need-2,"string within the message"); free(s); } else if ((uint64_t)pos+2<=(uint64_t)n) need=100; }
  if ((uint64_t)pos+need>(uint64_t)n) VF_ASSERTM(r<0,"short input is refused"); else VF_ASSERTM(r==(int64_t)(pos+need),"accepted input advances by its size");
#elif defined(ELEM)
  buzzobj_t k=NULL; buzzvstig_elem_t e=malloc(sizeof(struct buzzvstig_elem_s)); int64_t r=buzzvstig_elem_deserialize(&k,&e,w,0,vm);
  VF_ASSERTM(r<=n,"never claims more than the message holds"); if (r>=0) { __vf_reach("accepted"); VF_ASSERTM(k->o.type!=BUZZTYPE_CLOSURE,"decoded stigmergy keys can be used as keys"); wf(k); wf(e->data); __vf_out((uint64_t)e->timestamp*70000u+e->robot); } else __vf_reach("refused"); free(e);
#else
  buzzobj_t o=NULL; uint32_t pos=(uint32_t)vf_choose(0,1,"pos"); int64_t r=buzzobj_deserialize(&o,w,pos,vm);
  VF_ASSERTM(r<=n,"never claims more than the message holds"); if (r>=0) { VF_ASSERTM(r>(int64_t)pos,"consumes something"); wf(o); } else __vf_reach("refused"); __vf_out((uint64_t)r);
#endif
  VF_ASSERTM((int)buzzdarray_size(w)==n && memcmp((uint8_t*)w->data,copy,(size_t)n)==0,"decoding leaves the message unchanged");
  buzzdarray_destroy(&w); buzzvm_destroy(&vm);
}
