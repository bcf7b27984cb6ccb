// File I/O: every short file read line by line, every short sequence of writes read back, closed and missing files.
// QUICK lines -DMODE=0 -DL=4 time=250 reach=ok,empty,last,blank
// QUICK write -DMODE=1 -DN=2 time=250 reach=ok,append,trunc
// QUICK life  -DMODE=2 -DN=3 time=250 reach=ok,closed,missing,inside
// BOTH long   -DMODE=4 time=200 reach=ok
// BOTH bad    -DMODE=3 time=200 reach=error
// THOROUGH lines -DMODE=0 -DL=6 time=2000
// THOROUGH write -DMODE=1 -DN=3 time=2000
// THOROUGH life  -DMODE=2 -DN=5 time=2000
#include "vmh.h"
static buzzvm_t vm; static char want[32][16]; static int nw, calls; static const char* longw;
static const char SRC[]="function op(n,m) { return io.fopen(n, m) }\nfunction cl(f) { io.fclose(f) }\nfunction sz(f) { return io.fsize(f) }\nfunction fe(f) { io.fforeach(f, cb) }\nfunction w1(f,a) { io.fwrite(f, a) }\nfunction w2(f,a,b) { io.fwrite(f, a, b) }\nfunction fc(f) { io.fforeach(f, function(l) { cb(l)  io.fclose(f) }) }\nfunction fs(f,g) { io.fforeach(f, function(l) { cb(l)  io.fwrite(g, l) }) }\nfunction fx(f) { io.fforeach(f, function(l) { cb(l)  return 1 }) }\nfunction bad(f,g) { io.fforeach(f, g) }\n";
static buzzobj_t call(const char* f, int n, buzzobj_t a, buzzobj_t b, buzzobj_t c) { int64_t st=buzzvm_stack_top(vm); buzzobj_t r=vmh_call(vm,f,n,a,b,c); VF_ASSERTM(r!=NULL&&buzzvm_stack_top(vm)==st,"runs"); if (!r) exit(0); return r; }
static int cb(buzzvm_t v) { VF_ASSERTM(buzzvm_lnum(v)==1,"one argument"); buzzvm_lload(v,1); VF_ASSERTM(calls<nw,"no more lines than the file has"); if (calls>=nw) exit(0); buzzobj_t o=buzzvm_stack_at(v,1); if (longw&&calls==0) { VF_ASSERTM(vmh_iss(o,longw),"the line, whole"); ++calls; return buzzvm_ret0(v); } VF_ASSERTM(o->o.type==BUZZTYPE_STRING&&strlen(o->s.value.str)==strlen(want[calls]),"the line without its end"); int d=0; for (int i=0;want[calls][i];++i) d|=o->s.value.str[i]^want[calls][i]; VF_ASSERTM(d==0,"the line's characters"); ++calls; return buzzvm_ret0(v); }
static buzzobj_t open_(const char* n, const char* m) { return call("op",2,vmh_str(vm,n),vmh_str(vm,m),NULL); }
static void lines(const char* s, int l) { nw=0; int b=0; for (int i=0;i<l;++i) if (s[i]=='\n') { memcpy(want[nw],s+b,i-b); want[nw++][i-b]=0; b=i+1; } if (b<l) { memcpy(want[nw],s+b,l-b); want[nw++][l-b]=0; } calls=0; }
static int isfile(buzzobj_t f, const char* n) { return f->o.type==BUZZTYPE_TABLE&&vmh_iss(vmh_tgets(vm,f,"name"),n); }
void vf_main(void) {
  vm=vmh_load(1,SRC); vmh_setc(vm,"cb",cb); buzzvm_execute_script(vm); VF_ASSERTM(vm->state==BUZZVM_STATE_DONE,"script runs"); vm->state=BUZZVM_STATE_READY; vf_precise_asprintf=0;
#if MODE==0
  char s[16]; int l=vf_choose(0,L,"len"); for (int i=0;i<l;++i) { int c=vf_choose(0,2,"nl"); s[i]=c==1?'\n':c==2?'\r':(char)vf_range('}','~',"c"); } __vf_file_put("f.txt",s,l); lines(s,l); int total=nw; buzzobj_t f=open_("f.txt","r"); VF_ASSERTM(isfile(f,"f.txt"),"a file"); vmh_seto(vm,"held",f); VF_ASSERTM(vmh_isi(call("sz",1,f,NULL,NULL),l),"its size in bytes");
  call(vf_choose(0,1,"how")?"fe":"fx",1,f,NULL,NULL); VF_ASSERTM(calls==total,"every line, in order"); VF_ASSERTM(vmh_isi(call("sz",1,f,NULL,NULL),l),"size after reading"); nw=calls=0; call("fe",1,f,NULL,NULL); VF_ASSERTM(calls==0,"nothing is left"); call("cl",1,f,NULL,NULL); if (!l) __vf_reach("empty"); else { if (s[l-1]!='\n') __vf_reach("last"); for (int i=0;i<l;++i) if (s[i]=='\n'&&(i==0||s[i-1]=='\n')) __vf_reach("blank"); } __vf_reach("ok");
#elif MODE==1
  char e[128]; int le=0; static const char OLD[]="old\n"; int old=vf_choose(0,1,"old"); if (old) __vf_file_put("g.txt",OLD,4); int app=vf_choose(0,1,"append"); if (app&&old) { memcpy(e,OLD,4); le=4; __vf_reach("append"); } else if (old) __vf_reach("trunc"); buzzobj_t f=open_("g.txt",app?"a":"w"); VF_ASSERTM(isfile(f,"g.txt"),"a file"); vmh_seto(vm,"held",f);
  for (int i=0;i<N;++i) { buzzobj_t a[2]; int n=vf_choose(1,2,"args"); for (int j=0;j<n;++j) switch (vf_choose(0,3,"kind")) { case 0: { int32_t v=vf_range(-9,9,"v"); a[j]=vmh_int(vm,v); if (v<0) { e[le++]='-'; v=-v; } e[le++]=(char)('0'+v); break; } case 1: { char c[3]={(char)vf_range('}','~',"c"),' ',0}; a[j]=vmh_str(vm,c); e[le++]=c[0]; e[le++]=c[1]; break; } case 2: a[j]=vmh_nil(vm); memcpy(e+le,"[nil]",5); le+=5; break; default: a[j]=vmh_flt(vm,1.5f); memcpy(e+le,"1.500000",8); le+=8; } if (n==1) call("w1",2,f,a[0],NULL); else call("w2",3,f,a[0],a[1]); e[le++]='\n'; }
  call("cl",1,f,NULL,NULL); void* b; size_t n; VF_ASSERTM(__vf_file_get("g.txt",&b,&n),"the file exists"); VF_ASSERTM(n==(size_t)le,"its length"); int d=0; for (int i=0;i<le&&i<(int)n;++i) d|=((char*)b)[i]^e[i]; VF_ASSERTM(d==0,"the values written, one line per call"); __vf_reach("ok");
#elif MODE==4
  /* long lines: written and read back */
  static const int LN[]={119,120,121,127,128,255,256,1023,1024,3000}; int l=LN[vf_choose(0,9,"len")]; static char x[4000]; for (int i=0;i<l;++i) x[i]=(char)('a'+(i*7+i/26)%26); x[l]=0; buzzobj_t f=open_("l.txt","w"); vmh_seto(vm,"held",f); call("w2",3,f,vmh_str(vm,x),vmh_str(vm,"!")); call("w1",2,f,vmh_str(vm,"z"),NULL); call("cl",1,f,NULL,NULL);
  void* b; size_t n; VF_ASSERTM(__vf_file_get("l.txt",&b,&n)&&n==(size_t)l+4&&!memcmp(b,x,(size_t)l)&&!memcmp((char*)b+l,"!\nz\n",4),"the values written, one line per call"); f=open_("l.txt","r"); vmh_seto(vm,"held",f); VF_ASSERTM(vmh_isi(call("sz",1,f,NULL,NULL),l+4),"size"); x[l]='!'; x[l+1]=0; longw=x; calls=0; nw=2; want[1][0]='z'; want[1][1]=0; call("fe",1,f,NULL,NULL); VF_ASSERTM(calls==2,"every line, in order"); __vf_reach("ok");
#elif MODE==2
  /* a handle is usable until it is closed; afterwards every use is an error */
  static const char T[]="one\ntwo\nthree\n"; __vf_file_put("h.txt",T,sizeof T-1); VF_ASSERTM(open_("none/x.txt","r")->o.type==BUZZTYPE_NIL,"a file that does not exist"); __vf_reach("missing"); buzzobj_t f=open_("h.txt","r"); vmh_seto(vm,"held",f); int op=1, pos=0;
  for (int s=0;s<N;++s) { int k=vf_choose(0,3,"op"); lines(T,sizeof T-1); if (pos) { memmove(want,want[pos],sizeof want-pos*sizeof *want); nw-=pos; } int total=nw; static const char* FN[]={"sz","fe","fc","cl"}; buzzobj_t r=vmh_call(vm,FN[k],1,f,NULL,NULL);
    if (!op) { VF_ASSERTM(r==NULL&&vm->state==BUZZVM_STATE_ERROR&&calls==0,"a closed file cannot be used"); __vf_reach("closed"); return; } VF_ASSERTM(r!=NULL&&vm->state==BUZZVM_STATE_READY,"an open one can"); if (!r) return;
    switch (k) { case 0: VF_ASSERTM(vmh_isi(r,(int)sizeof T-1),"size"); break; case 1: VF_ASSERTM(calls==total,"the remaining lines"); pos=3; break; case 2: VF_ASSERTM(calls==(total>0),"closing ends the iteration"); if (total) { op=0; __vf_reach("inside"); } break; default: op=0; } } __vf_reach("ok");
#else
  buzzobj_t x; switch (vf_choose(0,5,"bad")) { case 0: x=vmh_nil(vm); break; case 1: x=vmh_int(vm,vf_i32("i")); break; case 2: x=vmh_flt(vm,vf_f32("f")); break; case 3: x=vmh_tab(vm); break; case 4: x=vmh_str(vm,"f"); break; default: { x=vmh_tab(vm); vmh_tput(vm,x,vmh_str(vm,"handle"),vmh_int(vm,vf_i32("h"))); } } static const char* FN[]={"cl","sz","fe","w1","w2","fc","op","bad"}; static const int AR[]={1,1,1,2,3,1,2,2}; int f=vf_choose(0,7,"f"); __vf_file_put("h.txt","a\n",2); buzzobj_t h=f==7?open_("h.txt","r"):x; vmh_seto(vm,"held",h); if (f==6&&x->o.type==BUZZTYPE_STRING) x=vmh_nil(vm); buzzobj_t r=vmh_call(vm,FN[f],AR[f],h,x,x); VF_ASSERTM(r==NULL&&vm->state==BUZZVM_STATE_ERROR&&buzzvm_strerror(vm)!=NULL&&calls==0,"an argument of the wrong kind is an error"); __vf_reach("error");
#endif
}
