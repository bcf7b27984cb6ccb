// Garbage collection: arbitrary object graphs hanging off every kind of root, and collections forced in the middle of library calls.
// QUICK graph -DGRAPH -DN=3 time=300 reach=dead,live,cycle,stack,lower,local,llocal,global,vval,vkey,handler,listener,none
// QUICK str   -DSTRS time=200 reach=kept,pruned,msg
// QUICK script -DSCRIPT time=300 reach=table,neighbors,vstig,conflict,listener,swarm,file
// THOROUGH graph -DGRAPH -DN=3 -DFULL time=3000
// THOROUGH str   -DSTRS time=900
// THOROUGH script -DSCRIPT time=900
#include "vmh.h"
static buzzvm_t vm;
static int inheap(buzzobj_t o) { for (int64_t i=0;i<buzzdarray_size(vm->heap->objs);++i) if (buzzdarray_get(vm->heap->objs,i,buzzobj_t)==o) return 1; return 0; }
static void collect(void) { vm->heap->max_objs=0; buzzheap_gc(vm); }
static int nop(buzzvm_t v) { return buzzvm_ret0(v); }
static uint64_t live(void) { return __vf_heap_bytes(); }
#ifdef GRAPH
enum { R_NONE, R_STACK, R_LOWER, R_LOCAL, R_LLOCAL, R_GLOBAL, R_VVAL, R_VKEY, R_HANDLER, R_LISTENER, R_N };
static void put(buzzobj_t from, int slot, buzzobj_t to) { if (from->o.type==BUZZTYPE_CLOSURE) buzzdarray_push(from->c.value.actrec,&to); else { buzzobj_t k=vmh_int(vm,slot); buzzdict_set(from->t.value,&k,&to); } }
#endif
#ifdef SCRIPT
static int gc(buzzvm_t v) { v->heap->max_objs=0; return buzzvm_ret0(v); }
static const char SRC[]=
 "function g(x) { gc()  return x }\n"
 "function tables(n) {\n"
 "  var t = {.a = {.v = n}, .b = {.v = n + 1}}\n"
 "  var s = 0\n"
 "  foreach(t, function(k,v) { gc()  var w = string.concat(k,\"!\")  gc()  acc = string.concat(w, \"?\") })\n"
 "  var m = map(t, function(k,v) { gc()  var r = {.k = string.concat(k,\"z\"), .v = v.v + 1}  gc()  return r })\n"
 "  var f = filter(t, function(k,v) { gc()  return v.v == n })\n"
 "  var r = reduce(t, function(k,v,a) { gc()  return {.s = a.s + v.v, .l = a} }, {.s = 0})\n"
 "  gc()\n"
 "  return {.ma = m.a.v, .mk = m.a.k, .fs = size(f), .fa = f.a.v, .r = r.s, .r0 = r.l.l.s, .ta = t.a.v, .tb = t.b.v, .acc = acc}\n"
 "}\n"
 "function neigh(n) {\n"
 "  var m = neighbors.map(function(i,d) { gc()  return {.x = d.distance + n, .y = {.i = i}} })\n"
 "  var f = neighbors.filter(function(i,d) { gc()  return i == 2 })\n"
 "  var r = neighbors.reduce(function(i,d,a) { gc()  return {.s = a.s + i} }, {.s = n})\n"
 "  neighbors.foreach(function(i,d) { gc()  acc = {.i = i, .p = acc} })\n"
 "  gc()\n"
 "  return {.m = m.get(2).x, .mi = m.get(5).y.i, .fc = f.count(), .f2 = f.get(2).distance, .r = r.s, .acc = acc}\n"
 "}\n"
 "function shared(n) {\n"
 "  vs = stigmergy.create(1)\n"
 "  vs.put(\"ka\", {.v = n})\n"
 "  vs.put(string.concat(\"k\",\"b\"), string.concat(\"val\",\"ue\"))\n"
 "  gc()\n"
 "  vs.foreach(function(k,v,r) { gc()  if(k == \"ka\") { got = {.k = k, .v = v.v} } })\n"
 "  gc()\n"
 "  return {.a = vs.get(\"ka\").v, .b = vs.get(\"kb\"), .g = got.v, .n = vs.size()}\n"
 "}\n"
 "function handlers(n) {\n"
 "  vs.onconflict(function(k,l,r) { var q = {.robot = r.robot, .data = {.w = string.concat(\"w\",k), .l = l.data.v, .r = r.data.v}}  k = nil  l = nil  r = nil  gc()  return q })\n"
 "  vs.onconflictlost(function(k,l) { gc()  lost = {.k = k, .v = l.data.v}  k = nil  l = nil  gc() })\n"
 "  neighbors.listen(\"topic\", function(t,v,r) { gc()  heard = {.t = string.concat(t,\"!\"), .v = v.q, .r = r}  gc() })\n"
 "  gc()\n"
 "}\n"
 "function conf() { gc()  return {.w = vs.get(\"ka\").data, .v = vs.get(\"ka\"), .k = lost.k, .l = lost.v} }\n"
 "function swarms(n) { var s = swarm.create(3)  s.join()  gc()  s.exec(function() { gc()  ex = {.n = n} })  var o = s.others(4)  gc()  return {.ex = ex.n, .in = s.in(), .id = o.id} }\n"
 "function files() { var f = io.fopen(\"f.txt\", \"r\")  ls = {.n = 0}  io.fforeach(f, function(l) { gc()  ls = {.n = ls.n + 1, .t = l, .p = ls} })  gc()  io.fclose(f)  return ls }\n"
 "function nop() { gc() }\n";
static buzzobj_t F(buzzobj_t t, const char* k) { VF_ASSERTM(t&&t->o.type==BUZZTYPE_TABLE,"result is a table"); return vmh_tgets(vm,t,k); }
static void inmsg(buzzmsg_payload_t p) { buzzinmsg_queue_append(vm,7,p); }
#endif
void vf_main(void) {
#ifdef GRAPH
  vm=buzzvm_new(4); static const uint8_t kinds[4][3]={{0,0,0},{0,1,0},{1,1,0},{1,0,1}}; int kd=vf_choose(0,3,"kinds"), root=vf_choose(0,R_N-1,"root");
#ifdef FULL
  int rn=vf_choose(0,N-1,"rootnode");
#else
  int rn=0;
#endif
  if (root==R_HANDLER||root==R_LISTENER) __vf_assume(kinds[kd][rn]==1);
  buzzobj_t n[N]; uint8_t e[N][N]; static char nm[N][8]; buzzobj_t sv[N];
  for (int i=0;i<N;++i) { n[i]=kinds[kd][i]?buzzheap_newobj(vm,BUZZTYPE_CLOSURE):vmh_tab(vm); strcpy(nm[i],"text0"); nm[i][4]=(char)('0'+i); sv[i]=vmh_str(vm,nm[i]); put(n[i],9,sv[i]); }
  int ne=0; for (int i=0;i<N;++i) for (int j=0;j<N;++j) {
#ifdef FULL
    int s=1;
#else
    int s=(i==0&&j>0)||(i>0); /* self loop of the root covered by the others */
#endif
    e[i][j]=s?vf_choose(0,1,"edge"):0; if (e[i][j]) { put(n[i],j,n[j]); ++ne; } }
  uint8_t r[N]={0}; if (root) r[rn]=1; for (int t=0;t<N;++t) for (int i=0;i<N;++i) if (r[i]) for (int j=0;j<N;++j) if (e[i][j]) r[j]=1;
  uint16_t vid=1; buzzvstig_t vs=buzzvstig_new(); buzzdict_set(vm->vstigs,&vid,&vs); uint32_t ni=buzzvm_function_register(vm,nop); (void)ni;
  switch (root) {
    case R_NONE: __vf_reach("none"); break;
    case R_STACK: buzzvm_pushi(vm,1); buzzvm_push(vm,n[rn]); buzzvm_pushi(vm,2); __vf_reach("stack"); break;
    case R_LOWER: { buzzvm_push(vm,n[rn]); buzzdarray_t s=buzzdarray_new(1,sizeof(buzzobj_t),NULL); buzzdarray_push(vm->stacks,&s); vm->stack=s; __vf_reach("lower"); break; }
    case R_LOCAL: case R_LLOCAL: { buzzdarray_t s=buzzdarray_new(1,sizeof(buzzobj_t),NULL); buzzobj_t z=vmh_int(vm,3); buzzdarray_push(s,&z); buzzdarray_push(s,&n[rn]); buzzvm_lsyms_t l=buzzvm_lsyms_new(0,s); buzzdarray_push(vm->lsymts,&l); vm->lsyms=l; if (root==R_LLOCAL) { s=buzzdarray_new(1,sizeof(buzzobj_t),NULL); l=buzzvm_lsyms_new(0,s); buzzdarray_push(vm->lsymts,&l); vm->lsyms=l; __vf_reach("llocal"); } else __vf_reach("local"); break; }
    case R_GLOBAL: vmh_seto(vm,"gl",n[rn]); __vf_reach("global"); break;
    case R_VVAL: { buzzobj_t k=vmh_int(vm,8); buzzvstig_elem_t x=buzzvstig_elem_new(n[rn],1,4); buzzvstig_store(vs,&k,&x); __vf_reach("vval"); break; }
    case R_VKEY: { buzzobj_t k=kinds[kd][rn]?NULL:n[rn]; if (!k) { __vf_assume(0); } buzzvstig_elem_t x=buzzvstig_elem_new(vmh_int(vm,8),1,4); buzzdict_set(vs->data,&k,&x); __vf_reach("vkey"); break; }
    case R_HANDLER: if (vf_choose(0,1,"lost")) vs->onconflictlost=n[rn]; else vs->onconflict=n[rn]; __vf_reach("handler"); break;
    default: { uint16_t sid=buzzvm_string_register(vm,"tp",0); buzzdict_set(vm->listeners,&sid,&n[rn]); __vf_reach("listener"); break; } }
  int rounds=1+vf_choose(0,1,"again"); for (int i=0;i<rounds;++i) collect();
  for (int i=0;i<N;++i) {
    VF_ASSERTM(inheap(n[i])==r[i],"exactly the reachable objects survive"); VF_ASSERTM(inheap(sv[i])==r[i],"and what they contain");
    if (!r[i]) { __vf_reach("dead"); continue; } __vf_reach("live"); if (e[i][i]||(i&&e[i][0])) __vf_reach("cycle");
    int k=1; VF_ASSERTM(n[i]->o.type==(kinds[kd][i]?BUZZTYPE_CLOSURE:BUZZTYPE_TABLE),"types are unchanged");
    if (kinds[kd][i]) { buzzdarray_t a=n[i]->c.value.actrec; VF_ASSERTM(buzzdarray_get(a,0,buzzobj_t)==sv[i],"contents are unchanged"); for (int j=0;j<N;++j) if (e[i][j]) { VF_ASSERTM(buzzdarray_get(a,k,buzzobj_t)==n[j],"contents are unchanged"); ++k; } VF_ASSERTM((int)buzzdarray_size(a)==k,"contents are unchanged"); }
    else { for (int j=0;j<N;++j) if (e[i][j]) { VF_ASSERTM(vmh_tget(vm,n[i],vmh_int(vm,j))==n[j],"contents are unchanged"); ++k; } VF_ASSERTM((int)buzzdict_size(n[i]->t.value)==k&&vmh_tget(vm,n[i],vmh_int(vm,9))==sv[i],"contents are unchanged"); }
    VF_ASSERTM(sv[i]->o.type==BUZZTYPE_STRING&&strcmp(sv[i]->s.value.str,nm[i])==0,"strings keep their text"); VF_ASSERTM(strcmp(buzzvm_string_get(vm,sv[i]->s.value.sid),nm[i])==0,"strings keep their text"); }
  if (root==R_LISTENER) { uint16_t sid=buzzvm_string_register(vm,"tp",0); const buzzobj_t* l=buzzdict_get(vm->listeners,&sid,buzzobj_t); VF_ASSERTM(l&&*l==n[rn],"a listener keeps its topic"); }
#elif defined(STRS)
  vm=buzzvm_new(4); int w=vf_choose(0,3,"who"), prot=vf_choose(0,1,"prot"); static char X[4]="xyz"; X[0]=(char)('a'+vf_range(0,25,"c")); char Y[4]; memcpy(Y,X,4); buzzvm_string_register(vm,"before",0); uint16_t id=buzzvm_string_register(vm,X,prot); buzzvm_string_register(vm,"after",0);
  if (w==1) buzzvm_pushs(vm,id); else if (w==2) vmh_seto(vm,"gl",vmh_str(vm,Y)); else if (w==3) { buzzoutmsg_queue_append_broadcast(vm,vmh_str(vm,"tp"),vmh_str(vm,Y)); __vf_reach("msg"); }
  collect(); int keep=w||prot; int have=0; for (uint16_t i=0;i<12;++i) { const char* s=buzzvm_string_get(vm,i); if (s&&strcmp(s,Y)==0) { have=1; VF_ASSERTM(i==id,"a surviving string keeps its identifier"); } VF_ASSERTM(!s||(strcmp(s,"before")&&strcmp(s,"after")),"unused strings are dropped"); }
  if (w!=3) VF_ASSERTM(have==keep,"a string survives exactly when it is used or protected"); if (have) __vf_reach("kept"); else __vf_reach("pruned"); 
  if (w==1) VF_ASSERTM(vmh_iss(buzzvm_stack_at(vm,1),Y),"text"); if (w==2) VF_ASSERTM(vmh_iss(vmh_get(vm,"gl"),Y),"text"); uint16_t id2=buzzvm_string_register(vm,Y,0); VF_ASSERTM(strcmp(buzzvm_string_get(vm,id2),Y)==0,"text"); if (have) VF_ASSERTM(id2==id,"one identifier per text");
  if (w==3) { buzzmsg_payload_t m=buzzoutmsg_queue_first(vm); buzzobj_t t,v; int64_t p=buzzobj_deserialize(&t,m,1,vm); VF_ASSERTM(p>0&&buzzobj_deserialize(&v,m,p,vm)>0,"a queued message"); VF_ASSERTM(vmh_iss(t,"tp")&&vmh_iss(v,Y),"keeps its contents"); buzzmsg_payload_destroy(&m); }
#else
  vm=vmh_load(4,SRC); vmh_setc(vm,"gc",gc); buzzvm_execute_script(vm); VF_ASSERTM(vm->state==BUZZVM_STATE_DONE,"script runs"); while (buzzvm_stack_top(vm)) buzzvm_pop(vm); vm->state=BUZZVM_STATE_READY;
  static const char T[]="one\ntwo\nthree\n"; __vf_file_put("f.txt",T,sizeof T-1);
  int32_t N=vf_i32("n"); int w=vf_choose(0,4,"w"); buzzobj_t r;
  if (w==0) { r=vmh_call(vm,"tables",1,vmh_int(vm,N),0,0); VF_ASSERTM(r!=NULL,"runs"); vmh_seto(vm,"r",r); int32_t n1=(int32_t)((uint32_t)N+1); VF_ASSERTM(vmh_isi(F(r,"ma"),n1)&&vmh_iss(F(r,"mk"),"az"),"map"); VF_ASSERTM(vmh_isi(F(r,"fs"),1)&&vmh_isi(F(r,"fa"),N),"filter"); VF_ASSERTM(vmh_isi(F(r,"r"),(int32_t)((uint32_t)N+(uint32_t)n1))&&vmh_isi(F(r,"r0"),0),"reduce"); VF_ASSERTM(vmh_isi(F(r,"ta"),N)&&vmh_isi(F(r,"tb"),n1),"source"); VF_ASSERTM(vmh_iss(F(r,"acc"),"a!?")||vmh_iss(F(r,"acc"),"b!?"),"strings"); __vf_reach("table"); }
  else if (w==1) { buzzneighbors_reset(vm); buzzneighbors_add(vm,2,1.5f,0,0); buzzneighbors_add(vm,5,2.5f,0,0); r=vmh_call(vm,"neigh",1,vmh_int(vm,7),0,0); VF_ASSERTM(r!=NULL,"runs"); vmh_seto(vm,"r",r); VF_ASSERTM(vmh_isfb(F(r,"m"),8.5f)&&vmh_isi(F(r,"mi"),5),"map"); VF_ASSERTM(vmh_isi(F(r,"fc"),1)&&vmh_isfb(F(r,"f2"),1.5f),"filter"); VF_ASSERTM(vmh_isi(F(r,"r"),14),"reduce"); buzzobj_t a=F(r,"acc"); VF_ASSERTM(a->o.type==BUZZTYPE_TABLE&&F(F(a,"p"),"i")->i.value+F(a,"i")->i.value==7,"foreach"); __vf_reach("neighbors"); }
  else if (w==2) { r=vmh_call(vm,"shared",1,vmh_int(vm,N),0,0); VF_ASSERTM(r!=NULL,"runs"); vmh_seto(vm,"r",r); VF_ASSERTM(vmh_isi(F(r,"a"),N)&&vmh_iss(F(r,"b"),"value")&&vmh_isi(F(r,"g"),N)&&vmh_isi(F(r,"n"),2),"shared memory keeps its contents"); __vf_reach("vstig");
    r=vmh_call(vm,"handlers",1,vmh_int(vm,N),0,0); VF_ASSERTM(r!=NULL,"runs"); int32_t M=vf_i32("m"); buzzobj_t t=vmh_tab(vm); vmh_tput(vm,t,vmh_str(vm,"v"),vmh_int(vm,M)); buzzvstig_elem_t x=buzzvstig_elem_new(t,1,9); buzzmsg_payload_t p=buzzmsg_payload_new(30); buzzmsg_serialize_u8(p,BUZZMSG_VSTIG_PUT); buzzmsg_serialize_u16(p,1); buzzvstig_elem_serialize(p,vmh_str(vm,"ka"),x); free(x); inmsg(p); buzzvm_process_inmsgs(vm); VF_ASSERTM(vm->state==BUZZVM_STATE_READY,"no error");
    buzzobj_t q=vmh_tab(vm); vmh_tput(vm,q,vmh_str(vm,"q"),vmh_int(vm,M)); p=buzzmsg_payload_new(30); buzzmsg_serialize_u8(p,BUZZMSG_BROADCAST); buzzobj_serialize(p,vmh_str(vm,"topic")); buzzobj_serialize(p,q); inmsg(p); buzzvm_process_inmsgs(vm); VF_ASSERTM(vm->state==BUZZVM_STATE_READY,"no error");
    collect(); r=vmh_call(vm,"conf",0,0,0,0); VF_ASSERTM(r!=NULL,"runs"); vmh_seto(vm,"r",r); buzzobj_t v=F(r,"v"); VF_ASSERTM(vmh_iss(F(v,"w"),"wka")&&vmh_isi(F(v,"l"),N)&&vmh_isi(F(v,"r"),M),"the winning entry"); VF_ASSERTM(vmh_iss(F(r,"k"),"ka")&&vmh_isi(F(r,"l"),N),"the lost entry"); __vf_reach("conflict");
    buzzobj_t h=vmh_get(vm,"heard"); VF_ASSERTM(vmh_iss(F(h,"t"),"topic!")&&vmh_isi(F(h,"v"),M)&&vmh_isi(F(h,"r"),7),"the listener's arguments"); __vf_reach("listener"); }
  else if (w==3) { r=vmh_call(vm,"swarms",1,vmh_int(vm,N),0,0); VF_ASSERTM(r!=NULL,"runs"); vmh_seto(vm,"r",r); VF_ASSERTM(vmh_isi(F(r,"ex"),N)&&vmh_isi(F(r,"in"),1)&&vmh_isi(F(r,"id"),4),"swarms"); __vf_reach("swarm"); }
  else { r=vmh_call(vm,"files",0,0,0,0); VF_ASSERTM(r!=NULL,"runs"); vmh_seto(vm,"r",r); VF_ASSERTM(vmh_isi(F(r,"n"),3)&&vmh_iss(F(r,"t"),"three")&&vmh_iss(F(F(r,"p"),"t"),"two"),"lines"); __vf_reach("file"); }
  collect(); r=vmh_call(vm,"nop",0,0,0,0); VF_ASSERTM(r!=NULL,"the machine keeps running");
#endif
  buzzvm_destroy(&vm);
}
