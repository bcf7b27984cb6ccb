// Wire encoding of scalars and strings: round trip, network byte order, exact length, truncation rejected.
// BOTH ints  -DINTS time=200 reach=short
// BOTH flt   -DFLT  time=400 reach=sub
// BOTH fltm  -DFLT -DFLTM time=300
// QUICK str  -DSTR -DSL=4 time=200
// THOROUGH str -DSTR -DSL=7 time=1500
// QUICK long -DLONGS=6 time=200
// THOROUGH long -DLONGS=8 time=1500
// QUICK seq  -DSEQ=3 -DSSL=2 time=200
// THOROUGH seq -DSEQ=5 -DSSL=2 time=1500
#include <buzz/buzzmsg.h>
#include "vf.h"
static buzzdarray_t B;
static uint8_t at(uint32_t i) { return buzzdarray_get(B,i,uint8_t); }
static uint32_t prefix(void) { uint32_t p=(uint32_t)vf_choose(0,3,"prefix"); B=buzzdarray_new((uint32_t)vf_choose(1,2,"cap")*4,sizeof(uint8_t),NULL); for (uint32_t i=0;i<p;i++) { uint8_t x=vf_u8("pre"); buzzmsg_serialize_u8(B,x); } return p; }
// the first n bytes of the buffer only
static buzzdarray_t cut(uint32_t n) { buzzdarray_t c=buzzdarray_new(1,sizeof(uint8_t),NULL); for (uint32_t i=0;i<n;i++) { uint8_t x=at(i); buzzdarray_push(c,&x); } return c; }
#ifdef INTS
void vf_main(void) {
  uint64_t h0=__vf_heap_bytes(); uint32_t p=prefix(); uint8_t t=(uint8_t)vf_choose(0,2,"type"); uint32_t v=vf_u32("v"), sz=1u<<t;
  if (t==0) buzzmsg_serialize_u8(B,(uint8_t)v); else if (t==1) buzzmsg_serialize_u16(B,(uint16_t)v); else buzzmsg_serialize_u32(B,v);
  VF_ASSERTM(buzzdarray_size(B)==p+sz,"encoding has the documented size");
  for (uint32_t i=0;i<sz;i++) VF_ASSERTM(at(p+i)==(uint8_t)(v>>(8*(sz-1-i))),"bytes are in network order");
  for (int tail=0;tail<2;tail++) { uint8_t d8=0; uint16_t d16=0; uint32_t d32=0; int64_t r; uint32_t d;
    if (t==0) { r=buzzmsg_deserialize_u8(&d8,B,p); d=d8; v&=0xff; } else if (t==1) { r=buzzmsg_deserialize_u16(&d16,B,p); d=d16; v&=0xffff; } else { r=buzzmsg_deserialize_u32(&d32,B,p); d=d32; }
    VF_ASSERTM(r==(int64_t)p+sz,"decoding advances by the encoded size"); VF_ASSERTM(d==v,"decode(encode(v)) is v");
    uint8_t x=vf_u8("tail"); buzzmsg_serialize_u8(B,x); }
  uint32_t q=vf_u32("q"); uint32_t n=buzzdarray_size(B); __vf_assume((uint64_t)q+sz>n); __vf_reach("short");
  { uint8_t d8; uint16_t d16; uint32_t d32; int64_t r=t==0?buzzmsg_deserialize_u8(&d8,B,q):t==1?buzzmsg_deserialize_u16(&d16,B,q):buzzmsg_deserialize_u32(&d32,B,q); VF_ASSERTM(r<0,"reading past the end is refused"); }
  __vf_out(v); buzzdarray_destroy(&B); VF_ASSERT(__vf_heap_bytes()==h0);
}
#elif defined(FLT)
void vf_main(void) {
  B=buzzdarray_new(8,sizeof(uint8_t),NULL); uint8_t z=0; int p=vf_choose(0,1,"prefix"); if (p) buzzmsg_serialize_u8(B,z);
  float g=0;
#ifdef FLTM /* chosen exponents; the top and bottom bits of the mantissa vary, the middle is all zeros or all ones */
  static const uint32_t E[]={0,1,2,100,126,127,128,150,151,200,253,254}; uint32_t w=((uint32_t)vf_choose(0,1,"sign")<<31)|(E[vf_choose(0,11,"exp")]<<23)|(vf_choose(0,1,"mid")?0x0ffff0u:0u)|((uint32_t)vf_choose(0,7,"top")<<20)|(uint32_t)vf_choose(0,15,"low"); float f; memcpy(&f,&w,4);
#else
  float f=vf_f32("f");
#endif
  __vf_assume(vf_finite(f)); uint32_t e=(vf_fbits(f)>>23)&255; if (e==0) __vf_reach("sub");
  buzzmsg_serialize_float(B,f); VF_ASSERTM(buzzdarray_size(B)==(uint32_t)p+8,"a float takes 8 bytes");
  int64_t r=buzzmsg_deserialize_float(&g,B,(uint32_t)p); VF_ASSERTM(r==p+8,"decoding advances by 8");
  uint32_t a=vf_fbits(f), b=vf_fbits(g); VF_ASSERTM(a==b || (((a|b)&0x7fffffffu)==0),"every finite float is restored exactly"); __vf_out(b);
  uint32_t q=vf_u32("q"); __vf_assume((uint64_t)q+8>buzzdarray_size(B)); VF_ASSERTM(buzzmsg_deserialize_float(&g,B,q)<0,"reading past the end is refused");
  buzzdarray_destroy(&B);
}
#elif defined(STR)
void vf_main(void) {
  uint64_t h0=__vf_heap_bytes(); uint32_t p=prefix(); char s[SL+1]; vf_bytes(s,SL,"s"); s[SL]=0; uint32_t n=(uint32_t)strlen(s);
  buzzmsg_serialize_string(B,s); VF_ASSERTM(buzzdarray_size(B)==p+2+n,"a string takes 2 bytes plus its characters");
  VF_ASSERTM(at(p)==0 && at(p+1)==n,"length prefix in network order"); for (uint32_t i=0;i<n;i++) VF_ASSERTM(at(p+2+i)==(uint8_t)s[i],"characters verbatim");
  char* d=NULL; int64_t r=buzzmsg_deserialize_string(&d,B,p); VF_ASSERTM(r==(int64_t)(p+2+n),"decoding advances by the encoded size"); VF_ASSERTM(d&&strcmp(d,s)==0,"decode(encode(s)) is s"); free(d);
  uint32_t c=(uint32_t)vf_choose(0,(int)(p+2+n)-1,"cut"); buzzdarray_t t=cut(c); VF_ASSERTM(buzzmsg_deserialize_string(&d,t,p)<0,"a truncated string is refused"); buzzdarray_destroy(&t);
  __vf_out(n); buzzdarray_destroy(&B); VF_ASSERT(__vf_heap_bytes()==h0);
}
#elif defined(LONGS)
// lengths around the byte and word boundaries of the length prefix
static const uint32_t LEN[]={127,128,255,256,257,300,32768,65535};
void vf_main(void) {
  uint32_t n=LEN[vf_choose(0,LONGS-1,"len")], i; char* s=malloc(n+1); for (i=0;i<n;i++) s[i]=(char)('a'+i%7); s[n]=0;
  for (i=0;i<n;i+=n/2) { s[i]=(char)vf_u8("s"); __vf_assume(s[i]!=0); }
  B=buzzdarray_new(10,sizeof(uint8_t),NULL); buzzmsg_serialize_string(B,s); VF_ASSERTM(buzzdarray_size(B)==2+n,"a string takes 2 bytes plus its characters"); VF_ASSERTM(at(0)==n/256 && at(1)==n%256,"length prefix in network order");
  buzzmsg_serialize_u16(B,0xBEEF); char* d=NULL; int64_t r=buzzmsg_deserialize_string(&d,B,0); VF_ASSERT(r==(int64_t)n+2); VF_ASSERTM(memcmp(d,s,n+1)==0,"decode(encode(s)) is s"); free(d);
  uint16_t w=0; VF_ASSERT(buzzmsg_deserialize_u16(&w,B,(uint32_t)r)==(int64_t)n+4 && w==0xBEEF); __vf_out(n);
}
#elif defined(SEQ)
// a message made of several values of arbitrary kinds decodes to the same values in the same order
void vf_main(void) {
  B=buzzdarray_new(1,sizeof(uint8_t),NULL); int k[SEQ]; uint32_t v[SEQ]; char s[SEQ][SSL+1]; uint32_t want[SEQ+1]; want[0]=0;
  for (int i=0;i<SEQ;i++) { k[i]=vf_choose(0,4,"kind"); v[i]=0; uint32_t n=0;
    if (k[i]==4) { vf_bytes(s[i],SSL,"s"); s[i][SSL]=0; buzzmsg_serialize_string(B,s[i]); n=2+(uint32_t)strlen(s[i]); }
    else { v[i]=vf_u32("v"); if (k[i]==0) { v[i]&=255; buzzmsg_serialize_u8(B,(uint8_t)v[i]); n=1; } else if (k[i]==1) { v[i]&=65535; buzzmsg_serialize_u16(B,(uint16_t)v[i]); n=2; } else if (k[i]==2) { buzzmsg_serialize_u32(B,v[i]); n=4; }
      else { static const uint32_t F[]={0x3fc00000u,0x80000001u,0x7f7fffffu}; v[i]=F[i%3]; float f; memcpy(&f,&v[i],4); buzzmsg_serialize_float(B,f); n=8; } }
    want[i+1]=want[i]+n; VF_ASSERTM(buzzdarray_size(B)==want[i+1],"values are appended back to back"); }
  int64_t p=0;
  for (int i=0;i<SEQ;i++) { uint8_t a; uint16_t b; uint32_t c; float f; char* d; uint32_t g=0;
    if (k[i]==0) { p=buzzmsg_deserialize_u8(&a,B,(uint32_t)p); g=a; } else if (k[i]==1) { p=buzzmsg_deserialize_u16(&b,B,(uint32_t)p); g=b; } else if (k[i]==2) { p=buzzmsg_deserialize_u32(&c,B,(uint32_t)p); g=c; }
    else if (k[i]==3) { p=buzzmsg_deserialize_float(&f,B,(uint32_t)p); g=vf_fbits(f); } else { p=buzzmsg_deserialize_string(&d,B,(uint32_t)p); VF_ASSERTM(strcmp(d,s[i])==0,"string restored in sequence"); free(d); }
    VF_ASSERTM(p==(int64_t)want[i+1],"positions advance value by value"); if (k[i]<4) VF_ASSERTM(g==v[i],"value restored in sequence"); }
  __vf_out((uint64_t)p); buzzdarray_destroy(&B);
}
#endif
