// String library: C closures against direct definitions over arbitrary short strings, indices and numbers; script library string.bzz likewise.
// QUICK sub1   -DMODE=0 -DL=1 -DCLO=1 -DCHI=127 time=250
// QUICK sub    -DMODE=0 -DL=3 time=250 reach=ok,nil,clipped,empty
// QUICK concat -DMODE=1 -DL=2 time=250 reach=ok,three
// QUICK toint  -DMODE=2 -DL=3 time=250 reach=ok,nil,neg,tail
// QUICK limit  -DMODE=3 time=250 reach=ok,nil
// QUICK itos   -DMODE=4 -DD=999 time=250 reach=ok
// QUICK tofloat -DMODE=5 -DL=2 time=250 reach=ok,nil,point
// BOTH long    -DMODE=10 time=250 reach=sub,concat,index
// BOTH ftos    -DMODE=6 time=100 reach=ok
// BOTH bad     -DMODE=7 time=200 reach=ok,error
// QUICK index  -DMODE=8 -DL=3 time=250 reach=first,last,none,several,charat
// QUICK split  -DMODE=9 -DL=3 -DDL=2 time=250 reach=ok,tokens,nodelim
// THOROUGH sub    -DMODE=0 -DL=5 time=2000
// THOROUGH concat -DMODE=1 -DL=2 -DCLO=124 -DCHI=126 time=2000
// THOROUGH toint  -DMODE=2 -DL=5 time=2000
// THOROUGH limit  -DMODE=3 time=2000
// THOROUGH itos   -DMODE=4 -DD=9999 time=2000
// THOROUGH tofloat -DMODE=5 -DL=3 time=2000
// THOROUGH index  -DMODE=8 -DL=5 time=2000
// THOROUGH split  -DMODE=9 -DL=5 -DDL=2 time=2000
#include "vmh.h"
#include "repo_bzz.h"
#ifndef CLO
#define CLO 125
#define CHI 126
#endif
static buzzvm_t vm;
static const char SRC[]="include \"string.bzz\"\n"
 "function sub2(s,n) { return string.sub(s, n) }\nfunction sub3(s,n,m) { return string.sub(s, n, m) }\nfunction len(s) { return string.length(s) }\nfunction cat2(a,b) { return string.concat(a, b) }\nfunction cat3(a,b,c) { return string.concat(a, b, c) }\n"
 "function toi(s) { return string.toint(s) }\nfunction tof(s) { return string.tofloat(s) }\nfunction tos(x) { return string.tostring(x) }\nfunction chr(s,n) { return string.charat(s, n) }\nfunction fst(s,m) { return string.indexoffirst(s, m) }\nfunction lst(s,m) { return string.indexoflast(s, m) }\nfunction spl(s,d) { return string.split(s, d) }\n";
static buzzobj_t call(const char* f, int n, buzzobj_t a, buzzobj_t b, buzzobj_t c) { int64_t st=buzzvm_stack_top(vm); buzzobj_t r=vmh_call(vm,f,n,a,b,c); VF_ASSERTM(r!=NULL&&buzzvm_stack_top(vm)==st,"a result"); if (!r) exit(0); return r; }
static int isnil(buzzobj_t o) { return o->o.type==BUZZTYPE_NIL; }
/* an arbitrary string of up to max characters; lo..hi when hi is given */
static int rs(char* s, int max, int lo, int hi, const char* nm) { int l=vf_choose(0,max,nm); for (int i=0;i<l;++i) { s[i]= hi?(char)vf_range(lo,hi,nm):(char)vf_u8(nm); __vf_assume(s[i]!=0); } s[l]=0; return l; }
static int eqn(const char* a, const char* b, int n) { int d=0; for (int i=0;i<n;++i) d|=a[i]^b[i]; return d==0; }
static int isstr(buzzobj_t o, const char* s, int n) { return o->o.type==BUZZTYPE_STRING && strlen(o->s.value.str)==(size_t)n && eqn(o->s.value.str,s,n); }
static int sp(char c) { return c==' '||(c>=9&&c<=13); }
static int num(char c) { return c>='0'&&c<='9'; }
void vf_main(void) {
  __vf_file_put("string.bzz",BZZ_string,sizeof BZZ_string-1); vm=vmh_run(1,SRC); VF_ASSERTM(vm->state==BUZZVM_STATE_DONE,"script runs"); vm->state=BUZZVM_STATE_READY; char s[16], t[16], u[16];
#if MODE==0
  int l=rs(s,L,CLO,CHI,"s"); int three=vf_choose(0,1,"three"); int32_t n=vf_i32("n"), m=vf_i32("m"); if (!three) m=l; buzzobj_t so=vmh_str(vm,s); VF_ASSERTM(vmh_isi(call("len",1,so,NULL,NULL),l),"length");
  buzzobj_t r=three?call("sub3",3,so,vmh_int(vm,n),vmh_int(vm,m)):call("sub2",2,so,vmh_int(vm,n),NULL);
  if (n<0||n>=l||m<n) { VF_ASSERTM(isnil(r),"no such substring"); __vf_reach("nil"); } else { if (m>l) { m=l; __vf_reach("clipped"); } n=(int32_t)__vf_conc((uint32_t)n); m=(int32_t)__vf_conc((uint32_t)m); VF_ASSERTM(isstr(r,s+n,m-n),"the characters from the first index up to the second, excluded"); if (m==n) __vf_reach("empty"); __vf_reach("ok"); }
  VF_ASSERTM(isstr(so,s,l),"the string is unchanged");
#elif MODE==1
  int a=rs(s,L,CLO,CHI,"s"), b=rs(t,L,CLO,CHI,"t"), k=vf_choose(2,3,"k"), c=k==3?rs(u,1,CLO,CHI,"u"):0; char e[48]; memcpy(e,s,a); memcpy(e+a,t,b); memcpy(e+a+b,u,c); e[a+b+c]=0; buzzobj_t so=vmh_str(vm,s);
  buzzobj_t r=k==3?call("cat3",3,so,vmh_str(vm,t),vmh_str(vm,u)):call("cat2",2,so,vmh_str(vm,t),NULL); VF_ASSERTM(isstr(r,e,a+b+c),"the strings one after another"); VF_ASSERTM(isstr(so,s,a),"unchanged"); if (k==3) __vf_reach("three"); __vf_reach("ok");
#elif MODE==2
  int l=rs(s,L,0,0,"s"); buzzobj_t r=call("toi",1,vmh_str(vm,s),NULL,NULL); int i=0; while (sp(s[i])) ++i; int neg=s[i]=='-'; if (s[i]=='-'||s[i]=='+') ++i; int32_t v=0; int d=0; while (num(s[i])) { v=v*10+s[i++]-'0'; ++d; }
  if (!d) { VF_ASSERTM(isnil(r),"not a number"); __vf_reach("nil"); } else { VF_ASSERTM(vmh_isi(r,neg?-v:v),"the number written"); if (neg) __vf_reach("neg"); if (i<l) __vf_reach("tail"); __vf_reach("ok"); } __vf_out(r->o.type);
#elif MODE==3
  static const char* P[]={"21474836","-21474836","99999999","922337203685477580","-922337203685477580","9999999999999999999"}; int p=vf_choose(0,5,"p"); strcpy(s,""); char b[32]; strcpy(b,P[p]); int l=(int)strlen(b); int64_t v=0; int k=vf_choose(1,2,"k"), big=p>=2; for (int i=0;i<k;++i) { b[l+i]=(char)vf_range('0','9',"d"); v=v*10+b[l+i]-'0'; } b[l+k]=0;
  buzzobj_t r=call("toi",1,vmh_str(vm,b),NULL,NULL); int64_t w=p==2?99999999:21474836; for (int i=0;i<k;++i) w*=10; w+=v; if (p==1) w=-w;
  if (p<3&&w>=INT32_MIN&&w<=INT32_MAX) { VF_ASSERTM(vmh_isi(r,(int32_t)w),"the number written"); __vf_reach("ok"); } else { VF_ASSERTM(isnil(r),"a number that does not fit cannot be converted"); __vf_reach("nil"); }
#elif MODE==4
  int32_t v; switch (vf_choose(0,2,"range")) { case 0: v=vf_range(-D,D,"v"); break; case 1: v=INT32_MIN+vf_range(0,3,"v"); break; default: v=INT32_MAX-vf_range(0,3,"v"); } vf_precise_asprintf=1; buzzobj_t r=call("tos",1,vmh_int(vm,v),NULL,NULL); vf_precise_asprintf=0; VF_ASSERTM(r->o.type==BUZZTYPE_STRING,"a string");
  const char* p=r->s.value.str; int neg=*p=='-'; VF_ASSERTM(neg==(v<0),"sign"); if (neg) ++p; VF_ASSERTM(num(*p)&&(*p!='0'||p[1]==0),"no leading zeros"); int64_t w=0; while (num(*p)) w=w*10+*p++-'0'; VF_ASSERTM(*p==0&&(neg?-w:w)==v,"decimal digits of the number"); VF_ASSERTM(vmh_isi(call("toi",1,r,NULL,NULL),v),"and back"); __vf_reach("ok");
#elif MODE==5
  int l=vf_choose(0,L,"s"); for (int i=0;i<l;++i) switch (vf_choose(0,5,"class")) { case 0: s[i]='.'; break; case 1: s[i]='-'; break; case 2: s[i]='+'; break; case 3: s[i]=(char)vf_range(9,13,"sp"); break; case 4: s[i]='z'; break; default: s[i]=(char)vf_range('0','9',"d"); } s[l]=0; buzzobj_t r=call("tof",1,vmh_str(vm,s),NULL,NULL); int i=0; while (sp(s[i])) ++i; int neg=s[i]=='-'; if (s[i]=='-'||s[i]=='+') ++i; int32_t v=0, d=0, sc=1; while (num(s[i])) { v=v*10+s[i++]-'0'; ++d; } if (s[i]=='.'&&(d||num(s[i+1]))) { __vf_reach("point"); ++i; while (num(s[i])) { v=v*10+s[i++]-'0'; ++d; sc*=10; } }
  if (!d) { VF_ASSERTM(isnil(r),"not a number"); __vf_reach("nil"); } else { VF_ASSERTM(r->o.type==BUZZTYPE_FLOAT,"a float"); float e=(float)((double)v/sc); VF_ASSERTM(r->f.value==(neg?-e:e),"the number written"); __vf_reach("ok"); }
#elif MODE==6
  static const float F[]={0,1.5f,-0.25f,1000000,-123.456f,1e10f,0.000001f}; static const char* E[]={"0.000000","1.500000","-0.250000","1000000.000000","-123.456001","10000000000.000000","0.000001"}; int k=vf_choose(0,6,"k"); vf_precise_asprintf=1; buzzobj_t r=call("tos",1,vmh_flt(vm,F[k]),NULL,NULL); VF_ASSERTM(vmh_iss(r,E[k]),"six decimals"); buzzobj_t b=call("tof",1,r,NULL,NULL); VF_ASSERTM(vmh_isfb(b,F[k]),"and back"); __vf_reach("ok");
#elif MODE==7
  static const char* FN[]={"sub2","sub3","len","cat2","cat3","toi","tof","tos","sub3"}; static const int AR[]={2,3,1,2,3,1,1,1,3}; int f=vf_choose(0,8,"f"); buzzobj_t a[3]; int bad=vf_choose(0,AR[f]-1,"which"), ok=f==7; for (int i=0;i<3;++i) a[i]= (f==0||f==1||f==8)&&i>0?vmh_int(vm,i-1):vmh_str(vm,"abc");
  switch (vf_choose(0,5,"bad")) { case 0: a[bad]=vmh_nil(vm); break; case 1: a[bad]=vmh_int(vm,vf_i32("i")); if ((f==0||f==1||f==8)&&bad>0) ok=1; break; case 2: a[bad]=vmh_flt(vm,vf_f32("f")); break; case 3: a[bad]=vmh_tab(vm); break; case 4: a[bad]=vmh_get(vm,"len"); break; default: a[bad]=vmh_str(vm,""); if (!((f==0||f==1||f==8)&&bad>0)) ok=1; }
  buzzobj_t r=vmh_call(vm,FN[f],AR[f],a[0],a[1],a[2]); if (f==7) { int t=a[0]->o.type; VF_ASSERTM(r!=NULL&&(t==BUZZTYPE_INT||t==BUZZTYPE_FLOAT?r->o.type==BUZZTYPE_STRING:isnil(r)),"only numbers are converted"); } VF_ASSERTM((r!=NULL)==ok&&(r!=NULL||(vm->state==BUZZVM_STATE_ERROR&&buzzvm_strerror(vm)!=NULL)),"an argument of the wrong type is an error"); __vf_reach(r?"ok":"error");
#elif MODE==8
  int l=rs(s,L,'a','b',"s"), k=rs(t,2,'a','b',"t"); buzzobj_t so=vmh_str(vm,s), to=vmh_str(vm,t);
  if (vf_choose(0,1,"charat")) { int n=vf_choose(-1,L,"n"); buzzobj_t r=call("chr",2,so,vmh_int(vm,n),NULL); if (n<0||n>=l) VF_ASSERTM(isnil(r),"no such character"); else VF_ASSERTM(isstr(r,s+n,1),"the character"); __vf_reach("charat"); }
  else { __vf_assume(k>0); int f=-1, g=-1, c=0; for (int i=0;i+k<=l;++i) if (eqn(s+i,t,k)) { if (f<0) f=i; g=i; ++c; } buzzobj_t a=call("fst",2,so,to,NULL), b=call("lst",2,so,to,NULL); if (f<0) { VF_ASSERTM(isnil(a)&&isnil(b),"no occurrence"); __vf_reach("none"); } else { VF_ASSERTM(vmh_isi(a,f),"first occurrence"); VF_ASSERTM(vmh_isi(b,g),"last occurrence"); __vf_reach("first"); __vf_reach("last"); if (c>1) __vf_reach("several"); } }
#elif MODE==10
  /* long strings */
  static const int LN[]={127,128,255,256,300,1030}; int l=LN[vf_choose(0,5,"len")], op=vf_choose(0,2,"op"); static char x[2100]; for (int i=0;i<l;++i) x[i]=(char)('a'+(i*7+i/26)%26); x[l]=0; buzzobj_t so=vmh_str(vm,x);
  if (op==0) { int P[]={0,1,l/2,l-1,l,l+1}; int n=P[vf_choose(0,3,"n")], m=P[vf_choose(0,5,"m")]; buzzobj_t r=call("sub3",3,so,vmh_int(vm,n),vmh_int(vm,m)); if (m>l) m=l; if (m<n) VF_ASSERTM(isnil(r),"no such substring"); else VF_ASSERTM(isstr(r,x+n,m-n),"the characters from the first index up to the second, excluded"); VF_ASSERTM(vmh_isi(call("len",1,so,NULL,NULL),l),"length"); __vf_reach("sub"); }
  else if (op==1) { int k=LN[vf_choose(0,4,"len2")]; static char y[2100]; for (int i=0;i<k;++i) y[i]=(char)('A'+i%26); y[k]=0; int w=vf_choose(0,1,"order"); buzzobj_t r=w?call("cat2",2,so,vmh_str(vm,y),NULL):call("cat3",3,vmh_str(vm,y),so,vmh_str(vm,"!")); VF_ASSERTM(r->o.type==BUZZTYPE_STRING&&strlen(r->s.value.str)==(size_t)(l+k+!w)&&!memcmp(r->s.value.str+(w?0:k),x,(size_t)l)&&!memcmp(r->s.value.str+(w?l:0),y,(size_t)k)&&(w||r->s.value.str[l+k]=='!'),"the strings one after another"); __vf_reach("concat"); }
  else { x[l-1]='!'; so=vmh_str(vm,x); int f=vf_choose(0,1,"f"); if (l>300) return; VF_ASSERTM(vmh_isi(call(f?"fst":"lst",2,so,vmh_str(vm,"!"),NULL),l-1),"position of an occurrence"); __vf_reach("index"); }
#else
  int l=rs(s,L,'|','~',"s"), k=rs(t,DL,'}','~',"t"); buzzobj_t r=call("spl",2,vmh_str(vm,s),vmh_str(vm,t),NULL); VF_ASSERTM(r->o.type==BUZZTYPE_TABLE,"a table"); int c=0, b=0; for (int i=0;i<=l;++i) { int d=i==l; for (int j=0;j<k&&!d;++j) if (s[i]==t[j]) d=1; if (!d) continue; if (i>b) { VF_ASSERTM(isstr(vmh_tget(vm,r,vmh_int(vm,c)),s+b,i-b),"the token"); ++c; } b=i+1; }
  VF_ASSERTM(buzzdict_size(r->t.value)==(uint32_t)c,"every token and nothing else"); if (c>1) __vf_reach("tokens"); if (!k) __vf_reach("nodelim"); __vf_reach("ok"); __vf_out(c);
#endif
  buzzvm_destroy(&vm);
}
