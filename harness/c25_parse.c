// The compiler on any text: terminates, no memory error, and what it accepts can be assembled, loaded and executed without ever failing because of malformed code.
// QUICK byte0 -DMODE=0 -DN=2 -DLO=0 -DHI=1 time=500 reach=ok,bad
// QUICK byte1 -DMODE=0 -DN=2 -DLO=2 -DHI=2 time=500 reach=ok,bad
// QUICK byte2 -DMODE=0 -DN=2 -DLO=3 -DHI=3 time=500 reach=ok,bad
// QUICK byte3 -DMODE=0 -DN=2 -DLO=4 -DHI=6 time=500 reach=ok,bad
// QUICK byte4 -DMODE=0 -DN=2 -DLO=7 -DHI=8 time=500 reach=ok,bad
// QUICK byte5 -DMODE=0 -DN=2 -DLO=9 -DHI=11 time=500 reach=ok,bad
// QUICK byte6 -DMODE=0 -DN=2 -DLO=12 -DHI=13 time=500 reach=ok,bad
// QUICK byte7 -DMODE=0 -DN=2 -DLO=14 -DHI=14 time=500 reach=ok,bad
// QUICK tok0 -DMODE=1 -DN=4 -DCTX=0 time=400 reach=ok,bad
// QUICK tok1 -DMODE=1 -DN=4 -DCTX=1 time=400 reach=ok,bad
// QUICK tok2 -DMODE=1 -DN=3 -DCTX=2 time=400 reach=ok,bad
// QUICK pair0 -DMODE=2 -DLO=0 -DHI=1 time=400 reach=ok,bad
// QUICK pair1 -DMODE=2 -DLO=2 -DHI=3 time=400 reach=ok,bad
// THOROUGH pair0 -DMODE=2 -DLO=0 -DHI=1 time=900
// THOROUGH pair1 -DMODE=2 -DLO=2 -DHI=3 time=900
// THOROUGH byte0 -DMODE=0 -DN=3 -DLO=0 -DHI=0 time=3000
// THOROUGH byte1 -DMODE=0 -DN=3 -DLO=1 -DHI=1 time=3000
// THOROUGH byte2 -DMODE=0 -DN=3 -DLO=2 -DHI=2 time=3000
// THOROUGH byte3 -DMODE=0 -DN=3 -DLO=3 -DHI=3 time=3000
// THOROUGH byte4 -DMODE=0 -DN=3 -DLO=4 -DHI=4 time=3000
// THOROUGH byte5 -DMODE=0 -DN=3 -DLO=5 -DHI=5 time=3000
// THOROUGH byte6 -DMODE=0 -DN=3 -DLO=6 -DHI=6 time=3000
// THOROUGH byte7 -DMODE=0 -DN=3 -DLO=7 -DHI=7 time=3000
// THOROUGH byte8 -DMODE=0 -DN=3 -DLO=8 -DHI=8 time=3000
// THOROUGH byte9 -DMODE=0 -DN=3 -DLO=9 -DHI=9 time=3000
// THOROUGH byte10 -DMODE=0 -DN=3 -DLO=10 -DHI=10 time=3000
// THOROUGH byte11 -DMODE=0 -DN=3 -DLO=11 -DHI=11 time=3000
// THOROUGH byte12 -DMODE=0 -DN=3 -DLO=12 -DHI=12 time=3000
// THOROUGH byte13 -DMODE=0 -DN=3 -DLO=13 -DHI=13 time=3000
// THOROUGH byte14 -DMODE=0 -DN=3 -DLO=14 -DHI=14 time=3000
// THOROUGH tok0 -DMODE=1 -DN=5 -DCTX=0 time=3000
// THOROUGH tok1 -DMODE=1 -DN=5 -DCTX=1 time=3000
// THOROUGH tok2 -DMODE=1 -DN=4 -DCTX=2 time=3000
#include "vmh.h"
static char src[256]; static int n;
static void s(const char* t) { while (*t) src[n++]=*t++; }
static int final, eline, ecol;
/* ---- the language's grammar, over the tokens of the text: does the text belong to the language? */
static struct { int t, nl; char v[24]; } K[200]; static int nk, ip, no, infun, nest, lexerr;
static char loc[40][24]; static int nloc;
static void lexall(void) { buzzlex_t lx=buzzlex_new("t.bzz"); nk=0; lexerr=0; int nl=0; for (;;) { buzztok_t k=buzzlex_nexttok(lx); if (k->type==BUZZTOK_EOF) { lexerr=!buzzlex_done(lx); K[nk].t=BUZZTOK_EOF; K[nk].nl=nl; ++nk; buzzlex_destroytok(&k); break; }
    if (k->type==BUZZTOK_STATEND) nl=1; else { K[nk].t=k->type; K[nk].nl=nl; nl=0; K[nk].v[0]=0; if (k->value) { strncpy(K[nk].v,k->value,23); K[nk].v[23]=0; } ++nk; } buzzlex_destroytok(&k); }
  buzzlex_destroy(&lx); }
#define IS(x) (!no&&K[ip].t==BUZZTOK_##x)
#define EAT(x) do { if (!IS(x)) { no=1; return; } ++ip; } while (0)
static void condition(void), expression(void), bnot(void), statement(void), blockst(void);
static void number(int neg) { int dots=0, big=0; uint64_t v=0; for (char* q=K[ip].v;*q;++q) if (*q=='.') ++dots; else if (!dots) { if (v<100000000000ull) v=v*10+(uint64_t)(*q-'0'); else big=1; } if (dots>1||(!dots&&(big||v>2147483647ull+(uint64_t)neg))) no=1; else ++ip; }
static int isloc(const char* n) { for (int i=0;i<nloc;++i) if (!strcmp(loc[i],n)) return 1; return 0; }
static void addloc(const char* n) { strcpy(loc[nloc++],n); }
static void stats(void) { statement(); while (!no&&!IS(EOF)&&!IS(BLOCKCLOSE)) statement(); }
static void block(int scope) { EAT(BLOCKOPEN); if (IS(BLOCKCLOSE)) { ++ip; return; } int l=nloc; nest+=scope; stats(); nest-=scope; nloc=l; EAT(BLOCKCLOSE); }
static void ids(void) { if (IS(PARCLOSE)) return; for (;;) { if (!IS(ID)) { no=1; return; } addloc(K[ip].v); ++ip; if (!IS(LISTSEP)) return; ++ip; } }
static void body(int doc) { int l=nloc, f=infun; if (!f) { nloc=0; addloc("self"); } infun=1; ++nest; EAT(PAROPEN); ids(); EAT(PARCLOSE); if (doc&&IS(STRING)) ++ip; block(0); if (no) return; nloc=l; infun=f; --nest; }
static int idref(void) { int call=0; if (!IS(ID)) { no=1; return 0; } ++ip; for (;!no;) { 
    if (IS(DOT)) { ++ip; call=0; if (!IS(ID)) { no=1; return 0; } ++ip; }
    else if (IS(IDXOPEN)) { ++ip; call=0; expression(); if (!IS(IDXCLOSE)) { no=1; return 0; } ++ip; }
    else if (IS(PAROPEN)) { ++ip; call=1; if (!IS(PARCLOSE)) for (;;) { condition(); if (!IS(LISTSEP)) break; ++ip; } if (!IS(PARCLOSE)) { no=1; return 0; } ++ip; }
    else break; } return call; }
static void operand(void) {
  if (IS(FUN)) { ++ip; body(0); } else if (IS(NIL)||IS(STRING)) ++ip; else if (IS(CONST)) number(0);
  else if (IS(PAROPEN)) { ++ip; condition(); EAT(PARCLOSE); }
  else if (IS(ADDSUB)) { int neg=K[ip].v[0]=='-'; ++ip; if (IS(CONST)) number(neg); else bnot(); }
  else idref(); }
static void bnot(void) { if (IS(BNOT)) { ++ip; bnot(); } else operand(); }
static void andor(void) { bnot(); while (IS(BANDOR)) { ++ip; bnot(); } }
static void shift(void) { andor(); while (IS(LRSHIFT)) { ++ip; andor(); } }
static void power(void) { shift(); if (IS(POW)) { ++ip; power(); } }
static void modulo(void) { power(); while (IS(MOD)) { ++ip; power(); } }
static void product(void) { modulo(); while (IS(MULDIV)) { ++ip; modulo(); } }
static void expression(void) {
  if (IS(BLOCKOPEN)) { ++ip; if (IS(BLOCKCLOSE)) { ++ip; return; } for (;;) { EAT(DOT); if (IS(ID)) ++ip; else if (IS(CONST)) number(0); else no=1; EAT(ASSIGN); expression(); if (!IS(LISTSEP)) break; ++ip; } EAT(BLOCKCLOSE); return; }
  product(); while (IS(ADDSUB)) { ++ip; product(); } }
static void comparison(void) { expression(); if (IS(CMP)) { ++ip; expression(); } }
static void condition(void) { if (IS(LNOT)) { ++ip; condition(); return; } comparison(); while (IS(LANDOR)) { ++ip; comparison(); } }
static void command(void) {
  if (IS(RETURN)) { ++ip; if (K[ip].nl||IS(BLOCKCLOSE)) return; condition(); return; }
  int call=idref(); if (no) return; if (IS(ASSIGN)) { if (call) { no=1; return; } ++ip; expression(); } else if (!call) no=1; }
static void vardef(void) { EAT(VAR); if (!IS(ID)||(infun&&isloc(K[ip].v))) { no=1; return; } if (infun) addloc(K[ip].v); ++ip; if (IS(ASSIGN)) { ++ip; expression(); } }
static void blockst(void) { if (IS(BLOCKOPEN)) block(1); else if (IS(VAR)) { int l=nloc; vardef(); nloc=l; } else statement(); }
static void statement(void) {
  if (no||IS(BLOCKCLOSE)) return;
  if (IS(VAR)) vardef();
  else if (IS(FUN)) { ++ip; if (!IS(ID)||nest) { no=1; return; } ++ip; body(1); }
  else if (IS(IF)) { ++ip; EAT(PAROPEN); condition(); EAT(PARCLOSE); blockst(); if (IS(ELSE)) { ++ip; blockst(); } }
  else if (IS(WHILE)) { ++ip; EAT(PAROPEN); condition(); EAT(PARCLOSE); blockst(); }
  else if (IS(FOR)) { ++ip; EAT(PAROPEN); command(); EAT(LISTSEP); condition(); EAT(LISTSEP); command(); EAT(PARCLOSE); blockst(); }
  else command(); }
static int belongs(void) { lexall(); if (lexerr) return 0; ip=no=infun=nest=nloc=0; if (!IS(EOF)) stats(); return !no&&IS(EOF); }
/* compiles the text; 1 if accepted. final: rejected at a token that no longer text would change */
static int compile(int line, int col) {
  uint8_t* bc=NULL; uint32_t sz=0; buzzdebug_t d=NULL; char* argv[]={"bzzparse","t.bzz","t.basm",NULL}; __vf_file_put("t.bzz",src,(size_t)n);
  vf_precise_asprintf=1; buzzparser_t p=buzzparser_new(3,argv); VF_ASSERTM(p!=NULL,"a readable file is read"); int ok=buzzparser_parse(p); VF_ASSERTM(!!ok==belongs(),"accepted if and only if the text belongs to the language");
  final= !ok&&p->tok&&p->tok->type!=BUZZTOK_EOF&&p->tok->line==(uint64_t)line&&p->tok->col<(uint64_t)col; buzzparser_destroy(&p); VF_ASSERTM(p==NULL,"parser destroyed");
  if (!ok) { vf_precise_asprintf=0; __vf_reach("bad"); return 0; }
  int rc=buzz_asm("t.basm",&bc,&sz,&d); vf_precise_asprintf=0; VF_ASSERTM(rc==0,"what the compiler accepts can be assembled"); if (rc) return 0;
  buzzvm_t vm=buzzvm_new(7); int st=buzzvm_set_bcode(vm,bc,sz); VF_ASSERTM(st==BUZZVM_STATE_READY,"and loaded");
  int at=0; for (int i=0;i<80&&vm->state==BUZZVM_STATE_READY;++i) { at=vm->pc; buzzvm_step(vm); }
  VF_ASSERTM(vm->state!=BUZZVM_STATE_NOCODE&&vm->state!=BUZZVM_STATE_STOPPED,"it runs"); 
  int ret=vm->state==BUZZVM_STATE_ERROR&&(bc[at]==BUZZVM_INSTR_RET0||bc[at]==BUZZVM_INSTR_RET1); /* return outside of a function */
  if (vm->state==BUZZVM_STATE_ERROR&&!ret) VF_ASSERTM(vm->error!=BUZZVM_ERROR_INSTR&&vm->error!=BUZZVM_ERROR_STACK&&vm->error!=BUZZVM_ERROR_PC&&vm->error!=BUZZVM_ERROR_FLIST,"compiled code never breaks the machine");
  if (vm->state==BUZZVM_STATE_DONE) VF_ASSERTM(buzzdarray_size(vm->stacks)==1&&vm->lsyms==NULL,"every call is over at the end");
  __vf_out(sz); __vf_reach("ok"); return 1; }
#if MODE==0
static const char* PRE[]={"","function f(a){\n","x=","if(","var t={","t={}\nt.a","function f(","while(0)","for(i=0,","f=function(","function f(){return","x=1 ","if(1){","x={.k=","x=f(1"};
static const char* SUF[]={"","\n}\nf(1)\n","\ny=2",")x=1\nelse y=2","}","","){}","\nx=1",")x=1","","\n}\nf()"," y=2","}else x=1","}",")"};
void vf_main(void) { int k=vf_choose(LO,HI,"context"); s(PRE[k]); int l=vf_choose(0,N,"len"); vf_bytes(src+n,(size_t)l,"c"); n+=l; s(SUF[k]); compile(0,0); }
#elif MODE==2
/* pairs of statements and fragments, in each kind of scope */
static const char* SN[]={"var x\n","var self\n","var a=a\n","if(b) var x\n","if(b){var x=1 y=x}\n","y=function(c){var x=c}\n","y=function(a){var b}\n","function h(){}\n","x()=1\n","x().y=1\n","x.y(1)[2]\n","x.y\n","x={.a=1,.2=3}\n","x={}+1\n","x=(1<2)\n","x=1<2\n","return\n","return x<1\n","for(x=0,x<1,x=x+1) var y=x\n","while(x) {}\n","else x=1\n","x=-2147483648\n","x=2147483648\n","x=1.2.3\n","x=!-!1\n","x=not b\n","x=(not b)\n","if(not not b) {x=1} else {var z}\n","f(not b,{.k=1},function(){})\n","f(1,)\n","{x=1}\n","'doc'\n","var x=function(x){return x}\n","x[function(){}]=1\n"};
#define NSN ((int)(sizeof SN/sizeof *SN))
static const char* WP[]={"","function f(a,b){\n","function f(a){ var g=function(b){\n","b=0 if(b){\n"}; static const char* WS[]={"x=1","}\n","} }\n","}\n"};
void vf_main(void) { int k=vf_choose(LO,HI,"scope"); s(WP[k]); s(SN[vf_choose(0,NSN-1,"first")]); s(SN[vf_choose(0,NSN-1,"second")]); s(WS[k]); compile(0,0); }
#else
/* every sequence of tokens, extended one token at a time */
static const char* TOK[]={"x","f","1","'s'","(",")","{","}","[","]",",",".","=",";","<","-","*","!","var","if","else","function","for","while","and","not","nil","return"};
#if CTX==0
#define P "function f(x){}\n"
#define S ""
#define NTOK 27
#elif CTX==1
#define P "function f(x){\n"
#define S "\n}\nf(1)\n"
#define NTOK 28
#else
static const char* PP[]={"x =\n","if(x)\n","while(\n","for(\n","t={\n","f(1,\n","g=function(\n","if(0){\n","t={} t.a\n","function f(\n","for(i=0,i<2,\n","if(0) x=1 else\n"}; static const char* PS[]={"","",") x=1",") x=1","}",")","","}","= 1","){}",") x=1","\ny=1"}; static int pp;
#define P PP[pp]
#define S PS[pp]
#define NTOK 27
#endif
void vf_main(void) { static char t[128]; int l=0;
#if CTX==2
  pp=vf_choose(0,11,"context");
#endif
  for (int i=0;i<N;++i) { const char* k=TOK[vf_choose(0,NTOK-1,"token")]; t[l++]=' '; while (*k) t[l++]=*k++; t[l]=0; n=0; s(P); s(t); s(S); compile(2,l); if (final) return; } }
#endif
