// Lexer: every text is cut into exactly the tokens, with the positions, a reference tokenizer gives; file inclusion.
// QUICK any    -DMODE=0 -DN=3 time=300 reach=end,error
// QUICK str    -DMODE=1 -DN=4 time=400 reach=end,error
// QUICK kw     -DMODE=2 time=300 reach=end
// QUICK lines  -DMODE=3 -DN=5 time=300 reach=end,error
// QUICK inc    -DMODE=4 time=300 reach=end,error
// BOTH incpath -DMODE=5 time=300 reach=end,error,long
// THOROUGH any    -DMODE=0 -DN=4 time=3000
// THOROUGH str    -DMODE=1 -DN=6 time=3000
// THOROUGH kw     -DMODE=2 time=900
// THOROUGH lines  -DMODE=3 -DN=6 time=3000
// THOROUGH inc    -DMODE=4 time=900
#include <buzz/buzzlex.h>
#include "vf.h"
typedef struct { const char* name; const char* s; int n, pos; uint64_t line, col; } SRCF;   /* text followed by one newline */
typedef struct { int type, err; const char* file; uint64_t line, col; char val[32]; int hasval; } TOK;
static SRCF files[8]; static int nfiles; static SRCF stk[4]; static int depth;
static char cur(SRCF* f) { return f->pos<f->n?f->s[f->pos]:'\n'; }
static int ended(SRCF* f) { return f->pos>f->n; }
static void adv(SRCF* f) { if (cur(f)=='\n') { f->line++; f->col=0; } else f->col++; f->pos++; }
static int isal(char c) { return (c>='a'&&c<='z')||(c>='A'&&c<='Z'); } static int isdg(char c) { return c>='0'&&c<='9'; } static int isid(char c) { return isal(c)||isdg(c)||c=='_'; }
static int word(SRCF* f, const char* w) { int i=0; for (;w[i];++i) { SRCF t=*f; t.pos+=i; if (ended(&t)||cur(&t)!=w[i]) return 0; } SRCF t=*f; t.pos+=i; return ended(&t)||!isid(cur(&t)); }
static const struct { const char* w; int t; } KW[]={{"var",BUZZTOK_VAR},{"if",BUZZTOK_IF},{"else",BUZZTOK_ELSE},{"function",BUZZTOK_FUN},{"return",BUZZTOK_RETURN},{"for",BUZZTOK_FOR},{"while",BUZZTOK_WHILE},{"and",BUZZTOK_LANDOR},{"or",BUZZTOK_LANDOR},{"not",BUZZTOK_LNOT},{"nil",BUZZTOK_NIL}};
#define NKW ((int)(sizeof KW/sizeof *KW))
/* the reference: next token of the text */
static void next(TOK* t) { memset(t,0,sizeof *t); SRCF* f; char c;
  for (;;) { f=&stk[depth-1];
    while (!ended(f)&&(cur(f)==' '||cur(f)=='\t'||cur(f)=='\r')) adv(f);
    if (ended(f)) { if (depth==1) { t->type=BUZZTOK_EOF; depth=0; return; } --depth; continue; }
    if (cur(f)=='#') { while (cur(f)!='\n') adv(f); continue; }
    if (word(f,"include")) { for (int i=0;i<7;++i) adv(f); while (!ended(f)&&(cur(f)==' '||cur(f)=='\t'||cur(f)=='\r')) adv(f);
      char q=ended(f)?0:cur(f), nm[32]; int l=0; if (q!='"'&&q!='\'') { t->err=1; return; } adv(f); while (!ended(f)&&cur(f)!=q&&cur(f)!='\n') { nm[l++]=cur(f); adv(f); } nm[l]=0;
      if (ended(f)||cur(f)=='\n') { t->err=1; return; } adv(f);
      int k=-1; for (int i=0;i<nfiles;++i) if (!strcmp(files[i].name,nm)) k=i; if (k<0) { t->err=1; return; }
      int open=0; for (int i=0;i<depth;++i) if (!strcmp(stk[i].name,nm)) open=1; if (!open) stk[depth++]=files[k];
      continue; }
    break; }
  t->file=f->name; t->line=f->line; t->col=f->col; c=cur(f); int l=0;
#define TAKE() (t->val[l++]=cur(f),adv(f))
  switch (c) {
    case '\n': case ';': t->type=BUZZTOK_STATEND; adv(f); return;
    case '{': t->type=BUZZTOK_BLOCKOPEN; adv(f); return; case '}': t->type=BUZZTOK_BLOCKCLOSE; adv(f); return;
    case '(': t->type=BUZZTOK_PAROPEN; adv(f); return; case ')': t->type=BUZZTOK_PARCLOSE; adv(f); return;
    case '[': t->type=BUZZTOK_IDXOPEN; adv(f); return; case ']': t->type=BUZZTOK_IDXCLOSE; adv(f); return;
    case ',': t->type=BUZZTOK_LISTSEP; adv(f); return; case '.': t->type=BUZZTOK_DOT; adv(f); return; }
  if (isdg(c)) { t->type=BUZZTOK_CONST; t->hasval=1; while (!ended(f)&&(isdg(cur(f))||cur(f)=='.')) TAKE(); return; }
  if (isal(c)) { t->type=BUZZTOK_ID; t->hasval=1; for (int i=0;i<NKW;++i) if (word(f,KW[i].w)) t->type=KW[i].t; while (!ended(f)&&isid(cur(f))) TAKE(); return; }
  if (c=='=') { adv(f); if (!ended(f)&&cur(f)=='=') { adv(f); t->type=BUZZTOK_CMP; t->hasval=1; strcpy(t->val,"=="); } else t->type=BUZZTOK_ASSIGN; return; }
  if (c=='!') { adv(f); if (!ended(f)&&cur(f)=='=') { adv(f); t->type=BUZZTOK_CMP; t->hasval=1; strcpy(t->val,"!="); } else t->type=BUZZTOK_BNOT; return; }
  if (c=='<'||c=='>') { t->hasval=1; TAKE(); t->type=BUZZTOK_CMP; if (!ended(f)&&cur(f)==c) { t->type=BUZZTOK_LRSHIFT; TAKE(); } else if (!ended(f)&&cur(f)=='=') TAKE(); return; }
  t->hasval=1;
  if (c=='+'||c=='-') { t->type=BUZZTOK_ADDSUB; TAKE(); return; } if (c=='*'||c=='/') { t->type=BUZZTOK_MULDIV; TAKE(); return; } if (c=='%') { t->type=BUZZTOK_MOD; TAKE(); return; }
  if (c=='^') { t->type=BUZZTOK_POW; TAKE(); return; } if (c=='&'||c=='|') { t->type=BUZZTOK_BANDOR; TAKE(); return; }
  if (c=='"'||c=='\'') { t->type=BUZZTOK_STRING; adv(f);
    while (!ended(f)&&cur(f)!=c) { char x=cur(f); adv(f); if (x=='\\') { if (ended(f)) break; x=cur(f); adv(f); x= x=='n'?'\n':x=='t'?'\t':x; } t->val[l++]=x; }
    if (ended(f)) t->err=1; else adv(f); return; }
  t->err=1; }
static void add(const char* name, const char* s, int n) { SRCF f={name,s,n,0,1,0}; files[nfiles++]=f; __vf_file_put(name,s,(size_t)n); }
static int endswith(const char* a, const char* b) { size_t n=strlen(a), m=strlen(b); return n>=m&&!strcmp(a+n-m,b); }
static void compare(void) {
  buzzlex_t lx=buzzlex_new(files[0].name); VF_ASSERTM(lx!=NULL,"a readable file is opened"); stk[0]=files[0]; depth=1;
  for (int i=0;i<40;++i) { TOK r; next(&r); buzztok_t k=buzzlex_nexttok(lx); VF_ASSERTM(k!=NULL,"there is a token");
    if (r.err) { VF_ASSERTM(k->type==BUZZTOK_EOF&&!buzzlex_done(lx),"an invalid text is reported"); __vf_reach("error"); return; }
    VF_ASSERTM((int)k->type==r.type,"kind of token"); __vf_out((uint64_t)k->type);
    if (r.type==BUZZTOK_EOF) { VF_ASSERTM(buzzlex_done(lx),"the end of the text is the end"); k=buzzlex_nexttok(lx); VF_ASSERTM(k==NULL,"and stays the end"); __vf_reach("end"); return; }
    VF_ASSERTM(k->line==r.line,"line of the token"); VF_ASSERTM(k->col==r.col,"column of the token"); VF_ASSERTM(k->fname&&endswith(k->fname,r.file),"file of the token");
    VF_ASSERTM((k->value!=NULL)==r.hasval||r.type==BUZZTOK_EOF,"token has a text"); if (r.hasval&&k->value) VF_ASSERTM(!strcmp(k->value,r.val),"text of the token");
    buzzlex_destroytok(&k); VF_ASSERTM(k==NULL,"token destroyed"); }
  VF_ASSERTM(0,"the text has an end"); }
void vf_main(void) {
#if MODE==0
  static char b[N]; vf_bytes(b,N,"c"); add("t.bzz",b,vf_choose(0,N,"len"));
#elif MODE==1
  static char b[N+2]; int len=vf_choose(1,N+2,"len"); b[0]=vf_choose(0,1,"q")?'"':'\''; for (int i=1;i<len;++i) { static const char al[]="\"'\\nta\n"; b[i]=i==2&&vf_choose(0,1,"any")?(char)vf_u8("c"):al[vf_choose(0,6,"s")]; } add("t.bzz",b,len);
#elif MODE==2
  static char b[24]; int k=vf_choose(0,NKW,"kw"), n=0; const char* w=k<NKW?KW[k].w:"include"; int l=(int)strlen(w), cut=vf_choose(0,2,"cut");
  if (cut==1) b[n++]=(char)vf_u8("pre"); for (int i=0;i<l;++i) b[n++]=w[i]; if (cut==0) b[n++]=(char)vf_u8("post"); if (cut==2) { int p=vf_choose(0,l-1,"p"); b[p]=(char)vf_u8("mid"); } b[n++]=' '; b[n++]='1'; add("t.bzz",b,n);
#elif MODE==3
  static char b[N]; for (int i=0;i<N;++i) { static const char al[]="a1.\n#\" ="; b[i]=al[vf_choose(0,7,"s")]; } add("t.bzz",b,N);
#elif MODE==5
  static const char* E[]={0,"","d1","d1:d2","d2/:d1","::d1/:","no:d2"}; static const char* O[]={"","","1","12","21","1","2"}; int e=vf_choose(0,6,"path"); if (E[e]) setenv("BUZZ_INCLUDE_PATH",E[e],1);
  if (vf_choose(0,1,"long")) { int n=vf_choose(0,4,"n"); n= n==4?5000:4093+n; char* nm=malloc((size_t)n+1); memset(nm,'x',(size_t)n); nm[n]=0; VF_ASSERTM(buzzlex_new(nm)==NULL,"a file that is not there is reported"); __vf_reach("long"); free(nm); return; }
  int in0=vf_choose(0,1,"here"), in1=vf_choose(0,1,"in1"), in2=vf_choose(0,1,"in2"); if (in1) __vf_file_put("d1/u.bzz","11 x",4); if (in2) __vf_file_put("d2/u.bzz","22\n",3); if (!in1) __vf_file_put("d1/o","",0); if (!in2) __vf_file_put("d2/o","",0);
  const char* a="include \"u.bzz\" z"; add("t.bzz",a,(int)strlen(a)); const char *s=0, *fn="u.bzz"; if (in0) { __vf_file_put("u.bzz","00 q",4); s="00 q"; }
  else for (const char* o=O[e];*o&&!s;++o) { if (*o=='1'&&in1) { s="11 x"; fn="d1/u.bzz"; } if (*o=='2'&&in2) { s="22\n"; fn="d2/u.bzz"; } }
  if (s) { SRCF f={"u.bzz",s,(int)strlen(s),0,1,0}; files[nfiles++]=f; }
#else
  static const char* V[]={"a\ninclude \"u.bzz\" b\nc","include 'u.bzz'","include \"u.bzz\"\ninclude \"u.bzz\"\nz","include \"t.bzz\" x","include","include u","include \"u.bzz","include \"no.bzz\"\ny","  include\t\"u.bzz\";include\"w.bzz\"q","include \"u.bzz\n\"","include \"v'.bzz\" k","include 'v\".bzz'k"};
  static const char* U[]={"d","","include \"t.bzz\" e","include \"w.bzz\"\nf #c","#","'s\n' g"};
  static char w[2]; const char* a=V[vf_choose(0,11,"v")]; const char* u=U[vf_choose(0,5,"u")]; static const char al[]="a1.\n#\" ="; w[0]=al[vf_choose(0,7,"w")]; w[1]=(char)vf_u8("w"); add("t.bzz",a,(int)strlen(a)); add("u.bzz",u,(int)strlen(u)); add("w.bzz",w,2); add("v'.bzz","7",1); add("v\".bzz","8",1);
#endif
  compare(); }
