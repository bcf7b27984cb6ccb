// Debug information: offset <-> source position, its file format, breakpoints, positions recorded by the compiler.
// QUICK maps  -DMODE=0 -DN=2 time=300 reach=ok
// QUICK hash  -DMODE=4 -DN=2 time=300 reach=ok
// QUICK file  -DMODE=1 -DN=2 time=300 reach=ok,bad
// QUICK brk   -DMODE=2 time=300 reach=ok,stop
// THOROUGH brk   -DMODE=2 time=1500
// BOTH lines -DMODE=3 time=300 reach=ok
// QUICK bytes -DMODE=5 -DN=25 time=300 reach=ok,bad
// THOROUGH maps  -DMODE=0 -DN=3 time=3000
// THOROUGH hash  -DMODE=4 -DN=3 time=3000
// THOROUGH file  -DMODE=1 -DN=3 time=2000
// THOROUGH bytes -DMODE=5 -DN=46 time=2000
#include "vmh.h"
typedef struct { int32_t off; uint64_t line, col; const char* fn; } REC;
static const char* FN[]={"a.bzz","ab.bzz","b"};
static void at_off(buzzdebug_t d, const REC* r, int n, int32_t q) { const REC* l=NULL; for (int i=0;i<n;++i) if (r[i].off==q) l=&r[i];
  VF_ASSERTM(buzzdebug_info_exists_offset(d,&q)==(l!=NULL),"an offset is known exactly when it was recorded"); const buzzdebug_entry_t* e=buzzdebug_info_get_fromoffset(d,&q); VF_ASSERTM((e!=NULL)==(l!=NULL),"offset found");
  if (e&&l) { VF_ASSERTM((*e)->line==l->line,"line of an offset"); VF_ASSERTM((*e)->col==l->col,"column of an offset"); VF_ASSERTM(!strcmp((*e)->fname,l->fn),"file of an offset"); } }
static void at_pos(buzzdebug_t d, const REC* r, int n, uint64_t line, uint64_t col, const char* fn) { int any=0; int32_t lo=0; for (int i=0;i<n;++i) if (r[i].line==line&&r[i].col==col&&!strcmp(r[i].fn,fn)) { if (!any||r[i].off<lo) lo=r[i].off; any=1; }
  char* nm=strdup(fn); const int32_t* o=buzzdebug_info_get_fromscript(d,line,col,nm); free(nm); VF_ASSERTM((o!=NULL)==any,"a position is known exactly when it was recorded"); if (o&&any) VF_ASSERTM(*o==lo,"the first offset of a position"); }
static void fill(buzzdebug_t d, REC* r, int n) { for (int i=0;i<n;++i) { char* nm=strdup(r[i].fn); buzzdebug_info_set(d,r[i].off,r[i].line,r[i].col,nm); memset(nm,'z',strlen(nm)); free(nm); } }
static buzzdebug_t dbg; static int calls;
static int look(buzzvm_t v, const char* fn) { buzzvm_lload(v,1); buzzvm_lload(v,2); int a=buzzvm_stack_at(v,2)->i.value, b=buzzvm_stack_at(v,1)->i.value; int32_t o=v->oldpc; const buzzdebug_entry_t* e=buzzdebug_info_get_fromoffset(dbg,&o); ++calls;
  VF_ASSERTM(e!=NULL,"every instruction has a position"); if (e) { VF_ASSERTM((*e)->line>=(uint64_t)a&&(*e)->line<=(uint64_t)b,"position of an instruction"); const char* f=(*e)->fname; size_t l=strlen(f), m=strlen(fn); VF_ASSERTM(l>=m&&!strcmp(f+l-m,fn),"file of an instruction"); } return buzzvm_ret0(v); }
static int tf(buzzvm_t v) { return look(v,"t.bzz"); }
static int uf(buzzvm_t v) { return look(v,"u.bzz"); }
void vf_main(void) {
#if MODE==0 || MODE==4
  static REC r[N]; buzzdebug_t d=buzzdebug_new();
#if MODE==4
  vf_precise_asprintf=1;
#endif
  for (int i=0;i<N;++i) {
#if MODE==0
    r[i].off=100*(int32_t)(int8_t)vf_u8("off")+vf_choose(0,1,"off"); r[i].line=__vf_sym(64,"line"); r[i].col=__vf_sym(64,"col"); r[i].fn=FN[vf_choose(0,1+THOROUGH,"file")];
#else
    r[i].off=7*vf_choose(0,2,"off"); r[i].line=(uint64_t)vf_choose(1,2,"line")*11; r[i].col=(uint64_t)vf_choose(0,1,"col")*100; r[i].fn=FN[vf_choose(0,1,"file")];
#endif
    fill(d,&r[i],1); }
#if MODE==0
  int32_t q=100*(int32_t)(int8_t)vf_u8("q")+vf_choose(0,1,"q"); uint64_t l=__vf_sym(64,"l"), c=__vf_sym(64,"c"); const char* f=FN[vf_choose(0,1+THOROUGH,"f")];
#else
  int32_t q=7*vf_choose(0,3,"q"); uint64_t l=(uint64_t)vf_choose(1,2,"l")*11, c=(uint64_t)vf_choose(0,1,"c")*100; const char* f=FN[vf_choose(0,1,"f")];
#endif
  at_off(d,r,N,q); at_pos(d,r,N,l,c,f); VF_ASSERTM(buzzdebug_tofile("t.bdb",d)==1,"written"); buzzdebug_t g=buzzdebug_new(); VF_ASSERTM(buzzdebug_fromfile(g,"t.bdb")==1,"read back"); at_off(g,r,N,q);
  int dup=0; for (int i=0;i<N;++i) for (int j=0;j<i;++j) if (r[i].off==r[j].off) dup=1; if (!dup) at_pos(g,r,N,l,c,f); buzzdebug_destroy(&d); buzzdebug_destroy(&g); VF_ASSERTM(!d&&!g,"destroyed"); __vf_reach("ok");
#elif MODE==1
  /* files with names of any length, cut at any byte */
  static const int LEN[]={0,1,511,512,513,65534,65535}; static char b[3*70000]; static char nm[3][65540]; static REC r[N]; int n=0, end[N+1]; end[0]=0;
  for (int i=0;i<N;++i) { int l=LEN[vf_choose(0,i?2:6,"len")]; memset(nm[i],'x',(size_t)l); nm[i][l]=0; uint16_t s=(uint16_t)l; r[i].off=10*(i+1); r[i].line=vf_u32("line"); r[i].col=vf_u32("col"); r[i].fn=nm[i]; memcpy(b+n,&r[i].off,4); n+=4; memcpy(b+n,&r[i].line,8); n+=8; memcpy(b+n,&r[i].col,8); n+=8; memcpy(b+n,&s,2); n+=2; memcpy(b+n,nm[i],s); n+=s; end[i+1]=n; }
  int cut=n-vf_choose(0,n<30?n:30,"cut"), k=0; for (int i=0;i<=N;++i) if (end[i]<=cut) k=i; __vf_file_put("t.bdb",b,(size_t)cut); buzzdebug_t d=buzzdebug_new(); int rc=buzzdebug_fromfile(d,"t.bdb"); VF_ASSERTM(rc==(end[k]==cut),"a truncated file is reported"); for (int i=0;i<k;++i) at_off(d,r,k,r[i].off); VF_ASSERTM((int)buzzdict_size(d->off2script)<=k,"nothing is made up"); __vf_reach(rc?"ok":"bad"); VF_ASSERTM(buzzdebug_fromfile(d,"nofile")==0,"no file");
#elif MODE==5
  /* any file */
  static uint8_t b[N]; int l=vf_choose(0,N,"len"); vf_bytes(b,(size_t)l,"b"); for (int p=20;p+2<=l;p+=22) __vf_assume((b[p+1]==0&&b[p]<50)||(b[p+1]==255&&b[p]>=254)||(b[p+1]==2&&b[p]<2)); __vf_file_put("t.bdb",b,(size_t)l); buzzdebug_t d=buzzdebug_new(); int rc=buzzdebug_fromfile(d,"t.bdb"); int p=0, k=0; while (p+22<=l) { uint16_t s; memcpy(&s,b+p+20,2); if (p+22+(int)s>l) break; p+=22+(int)s; ++k; } VF_ASSERTM(rc==(p==l),"exactly whole entries are a valid file"); VF_ASSERTM((int)buzzdict_size(d->off2script)<=k,"nothing is made up"); __vf_reach(rc?"ok":"bad");
#elif MODE==2
  /* stops exactly at each visited breakpoint; otherwise runs as without a debugger */
  static const char SRC[]="x = 0\nwhile(x < a) { x = x + 1\n if(x == b) y = x }\nfunction f(q) { z = q\n return q }\n"; buzzvm_t v=vmh_load(1,SRC), w=vmh_load(1,SRC); int32_t a=vf_choose(THOROUGH?0:2,2,"a"), bb=vf_choose(1,1+THOROUGH,"b"); vmh_seti(v,"a",a); vmh_seti(v,"b",bb); vmh_seti(w,"a",a); vmh_seti(w,"b",bb);
  buzzdebug_t d=buzzdebug_new(); int32_t bp[2]; int nb=vf_choose(0,2,"breakpoints"); for (int i=0;i<nb;++i) { bp[i]=i?bp[0]+vf_choose(0,THOROUGH?12:6,"bp2"):vf_choose(0,(int)v->bcode_size,"bp"); buzzdebug_breakpoint_set_offset(d,bp[i]); if (nb==1&&vf_choose(0,1,"twice")) buzzdebug_breakpoint_set_offset(d,bp[i]); }
  int32_t qq=vf_i32("qq"); int in=0; for (int i=0;i<nb;++i) in|=bp[i]==qq; VF_ASSERTM(!!buzzdebug_breakpoint_exists(d,qq)==in,"breakpoints are exactly those set");
  int skip=0; for (int g=0;g<300;++g) { int st=buzzdebug_continue(v,d), hit=0; 
    for (;;) { hit=0; for (int i=0;i<nb;++i) hit|=bp[i]==w->pc; if (hit&&!skip) break; skip=0; if (buzzvm_step(w)!=BUZZVM_STATE_READY) { hit=0; break; } } skip=1;
    VF_ASSERTM(v->pc==w->pc,"stopped at the breakpoint, or at the end"); VF_ASSERTM((st==BUZZVM_STATE_STOPPED)==hit&&(int)v->state==st,"stopped exactly at a breakpoint"); if (hit) __vf_reach("stop"); else { VF_ASSERTM(v->state==w->state&&v->state==BUZZVM_STATE_DONE,"runs to the end"); break; } }
  VF_ASSERTM(v->state==BUZZVM_STATE_DONE,"the end is reached"); VF_ASSERTM(vmh_isi(vmh_get(v,"x"),a),"same effect"); VF_ASSERTM(buzzdebug_continue(v,d)==BUZZVM_STATE_DONE,"done is done");
  int32_t arg=vf_i32("arg"); buzzvm_pushi(v,55); buzzvm_pushi(v,arg); int st=buzzdebug_function_call(v,"f",1,d); for (int g=0;g<40&&st==BUZZVM_STATE_STOPPED;++g) { int h=0; for (int i=0;i<nb;++i) h|=bp[i]==v->pc; VF_ASSERTM(h,"stopped at a breakpoint"); st=v->state=BUZZVM_STATE_READY; while (buzzdarray_size(v->stacks)>1&&st==BUZZVM_STATE_READY) st=buzzvm_step(v); }
  VF_ASSERTM(st==BUZZVM_STATE_READY&&vmh_isi(vmh_get(v,"z"),arg),"the function runs"); VF_ASSERTM(vmh_isi(buzzvm_stack_at(v,1),arg)&&vmh_isi(buzzvm_stack_at(v,2),55),"its result is on the stack"); __vf_reach("ok");
#elif MODE==3
  /* the position recorded for a call lies between the call and the token that follows its statement; t(line,next) */
  static const char SRC[]="t(1,2)\nt(2,4)\n\nif(a) {\n  t(5,7)\n\n  t(7,8)\n} else\n  t(9,10)\ny = 1; include \"u.bzz\"\nfunction f(x) {\n  t(12,13)\n  if(x) t(13,14)\n  t(14,14) t(14,15)\n  return\n}\nf(a)\ni = 0\nwhile(i < 2) {\n  t(20,21)\n  i = i + 1\n}\ng = function(x) {\n  t(24,25)\n}\ng(1)\n#c\nt(28,30)\n";
  static const char U[]="# other file\nfunction h(y) {\n  u(3,4)\n}\n"; __vf_file_put("u.bzz",U,sizeof U-1); uint8_t* bc; uint32_t n; int ok=vmh_compile(SRC,sizeof SRC-1,&bc,&n,&dbg); VF_ASSERTM(ok,"compiles"); if (!ok) return; int via=vf_choose(0,1,"via"); if (via) { buzzdebug_t g=buzzdebug_new(); VF_ASSERTM(buzzdebug_tofile("t.bdb",dbg)==1&&buzzdebug_fromfile(g,"t.bdb")==1,"through a file"); dbg=g; }
  buzzvm_t vm=buzzvm_new(3); buzzvm_set_bcode(vm,bc,n); vmh_setc(vm,"t",tf); vmh_setc(vm,"u",uf); int32_t a=vf_i32("a"); vmh_seti(vm,"a",a); buzzvm_execute_script(vm); VF_ASSERTM(vm->state==BUZZVM_STATE_DONE,"runs"); VF_ASSERTM(calls==(a?12:10),"every call was looked up"); vmh_call(vm,"h",1,vmh_int(vm,1),NULL,NULL); VF_ASSERTM(calls==(a?13:11),"in the other file too"); __vf_reach("ok");
#endif
}
