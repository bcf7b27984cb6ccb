/* Model of the C library used under the engine. Executed symbolically like any other code. */
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
typedef long off_t_;
void* malloc(size_t); void* calloc(size_t,size_t); void* realloc(void*,size_t); void free(void*);
void* memcpy(void*,const void*,size_t); void* memset(void*,int,size_t);
int __vf_is_sym(uint64_t); int __vf_fmt_double(char*,const char*,double); float __vf_strtod_(const char*,char**); uint32_t __vf_strtod(const char*,char**); void __vf_str_ok(const char*); void __vf_cutoff(const char*);
/* ---- errno */
static int vf_errno; int* __errno_location(void) { return &vf_errno; }
/* ---- strings */
size_t strlen(const char* s) { size_t n=0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n=0; while (n<m&&s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { const unsigned char *x=(const unsigned char*)a,*y=(const unsigned char*)b; while (*x==*y) { if (!*x) return 0; x++; y++; } return (int)*x-(int)*y; }
int strncmp(const char* a, const char* b, size_t n) { const unsigned char *x=(const unsigned char*)a,*y=(const unsigned char*)b; for (size_t i=0;i<n;i++) { if (x[i]!=y[i]) return (int)x[i]-(int)y[i]; if (!x[i]) return 0; } return 0; }
int memcmp(const void* a, const void* b, size_t n) { const unsigned char *x=a,*y=b; for (size_t i=0;i<n;i++) if (x[i]!=y[i]) return (int)x[i]-(int)y[i]; return 0; }
char* strcpy(char* d, const char* s) { size_t i=0; do d[i]=s[i]; while (s[i++]); return d; }
char* stpcpy(char* d, const char* s) { while ((*d=*s)) { d++; s++; } return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i=0; for (;i<n&&s[i];i++) d[i]=s[i]; for (;i<n;i++) d[i]=0; return d; }
char* strcat(char* d, const char* s) { strcpy(d+strlen(d),s); return d; }
char* strncat(char* d, const char* s, size_t n) { size_t l=strlen(d),i=0; for (;i<n&&s[i];i++) d[l+i]=s[i]; d[l+i]=0; return d; }
char* strchr(const char* s, int c) { for (;;s++) { if (*s==(char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { const char* r=0; for (;;s++) { if (*s==(char)c) r=s; if (!*s) return (char*)r; } }
void* memchr(const void* s, int c, size_t n) { const unsigned char* p=s; for (size_t i=0;i<n;i++) if (p[i]==(unsigned char)c) return (void*)(p+i); return 0; }
char* strstr(const char* h, const char* n) { size_t l=strlen(n); for (;;h++) { if (!strncmp(h,n,l)) return (char*)h; if (!*h) return 0; } }
char* strdup(const char* s) { size_t n=strlen(s)+1; char* r=malloc(n); memcpy(r,s,n); return r; }
char* strndup(const char* s, size_t m) { size_t n=strnlen(s,m); char* r=malloc(n+1); memcpy(r,s,n); r[n]=0; return r; }
size_t strspn(const char* s, const char* a) { size_t n=0; while (s[n]&&strchr(a,s[n])) n++; return n; }
size_t strcspn(const char* s, const char* a) { size_t n=0; while (s[n]&&!strchr(a,s[n])) n++; return n; }
char* strpbrk(const char* s, const char* a) { s+=strcspn(s,a); return *s?(char*)s:0; }
char* strsep(char** sp, const char* d) { char* s=*sp; if (!s) return 0; char* e=s+strcspn(s,d); if (*e) { *e=0; *sp=e+1; } else *sp=0; return s; }
char* strtok_r(char* s, const char* d, char** sv) { if (!s) s=*sv; if (!s) return 0; s+=strspn(s,d); if (!*s) { *sv=0; return 0; } char* e=s+strcspn(s,d); if (*e) { *e=0; *sv=e+1; } else *sv=0; return s; }
static char* vf_tok; char* strtok(char* s, const char* d) { return strtok_r(s,d,&vf_tok); }
char* strerror(int e) { return "error"; }
/* ---- ctype (C locale) */
int isdigit(int c) { return (c>='0')&(c<='9'); }
int isupper(int c) { return (c>='A')&(c<='Z'); }
int islower(int c) { return (c>='a')&(c<='z'); }
int isalpha(int c) { return isupper(c)|islower(c); }
int isalnum(int c) { return isalpha(c)|isdigit(c); }
int isspace(int c) { return (c==' ')|((c>=9)&(c<=13)); }
int isblank(int c) { return (c==' ')|(c==9); }
int isxdigit(int c) { return isdigit(c)|((c>='a')&(c<='f'))|((c>='A')&(c<='F')); }
int isprint(int c) { return (c>=32)&(c<127); }
int ispunct(int c) { return isprint(c)&!isalnum(c)&(c!=' '); }
int iscntrl(int c) { return ((c>=0)&(c<32))|(c==127); }
int toupper(int c) { return islower(c)?c-32:c; }
int tolower(int c) { return isupper(c)?c+32:c; }
/* ---- byte order */
uint32_t htonl(uint32_t x) { return (x>>24)|((x>>8)&0xff00)|((x<<8)&0xff0000)|(x<<24); }
uint32_t ntohl(uint32_t x) { return htonl(x); }
uint16_t htons(uint16_t x) { return (uint16_t)((x>>8)|(x<<8)); }
uint16_t ntohs(uint16_t x) { return htons(x); }
int abs(int x) { return x<0?(int)(0u-(unsigned)x):x; }
long labs(long x) { return x<0?(long)(0ul-(unsigned long)x):x; }
/* ---- numbers */
static int vf_dig(int c) { if (isdigit(c)) return c-'0'; if (islower(c)) return c-'a'+10; if (isupper(c)) return c-'A'+10; return 99; }
static unsigned long vf_strtoul(const char* s, char** end, int base, int* neg, int* over) {
  const char* p=s; while (isspace((unsigned char)*p)) p++; *neg=0; *over=0;
  if (*p=='-') { *neg=1; p++; } else if (*p=='+') p++;
  if ((base==0||base==16)&&p[0]=='0'&&(p[1]=='x'||p[1]=='X')&&isxdigit((unsigned char)p[2])) { p+=2; base=16; } else if (base==0) base = *p=='0'?8:10;
  unsigned long v=0; int any=0; for (;;p++) { int d=vf_dig((unsigned char)*p); if (d>=base) break; any=1; unsigned long lim=~0ul/base; if (v>lim||(v==lim&&(unsigned long)d>~0ul%base)) *over=1; v=v*base+d; }
  if (end) *end=(char*)(any?p:s); return any?v:0; }
long strtol(const char* s, char** e, int b) { int n,o; unsigned long v=vf_strtoul(s,e,b,&n,&o); if (n) { if (o||v>0x8000000000000000ul) { vf_errno=34; return (long)0x8000000000000000ul; } return (long)(0-v); } if (o||v>0x7ffffffffffffffful) { vf_errno=34; return 0x7fffffffffffffffl; } return (long)v; }
unsigned long strtoul(const char* s, char** e, int b) { int n,o; unsigned long v=vf_strtoul(s,e,b,&n,&o); if (o) { vf_errno=34; return ~0ul; } return n?0-v:v; }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s,e,b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s,e,b); }
long long strtoll(const char* s, char** e, int b) { return strtol(s,e,b); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return strtol(s,e,b); }
int atoi(const char* s) { return (int)strtol(s,0,10); }
static int vf_symstr(const char* s) { for (;;s++) { if (__vf_is_sym((unsigned char)*s)) return 1; if (!*s) return 0; } }
/* decimal notation without exponent when the text is symbolic; exact for <= 9 digits total */
double strtod(const char* s, char** end) {
  if (!vf_symstr(s)) { uint32_t b=__vf_strtod(s,end); float f; memcpy(&f,&b,4); return f; }
  const char* p=s; while (isspace((unsigned char)*p)) p++; int neg=0; if (*p=='-') { neg=1; p++; } else if (*p=='+') p++;
  uint32_t m=0; int nd=0,any=0; double sc=1; while (isdigit((unsigned char)*p)) { m=m*10+(*p-'0'); p++; any=1; nd++; }
  if (*p=='.'&&(any||isdigit((unsigned char)p[1]))) { p++; while (isdigit((unsigned char)*p)) { m=m*10+(*p-'0'); p++; any=1; nd++; sc*=10; } }
  if (nd>9) __vf_cutoff("strtof: long symbolic numeral");
  if (!any && (*p=='i'||*p=='I'||*p=='n'||*p=='N')) __vf_cutoff("strtof: inf/nan");
  if (any&&(*p=='e'||*p=='E')) __vf_cutoff("strtof: exponent");
  if (any&&m==0&&(*p=='x'||*p=='X')) __vf_cutoff("strtof: hex");
  if (end) *end=(char*)(any?p:s); double v=any?(double)m/sc:0; return neg?-v:v; }
float strtof(const char* s, char** e) { return (float)strtod(s,e); }
double atof(const char* s) { return strtod(s,0); }
/* frexpf/ldexpf on the bit pattern */
static uint32_t fb(float f) { uint32_t b; memcpy(&b,&f,4); return b; }
static float bf(uint32_t b) { float f; memcpy(&f,&b,4); return f; }
float frexpf(float x, int* e) {
  uint32_t b=fb(x), s=b&0x80000000u, ex=(b>>23)&255, m=b&0x7fffff;
  if (ex==255) { *e=0; return x; }
  if (ex==0) { if (m==0) { *e=0; return x; } int sh=0; while (!(m&0x800000)) { m<<=1; sh++; } m&=0x7fffff; *e=-125-sh; return bf(s|(126u<<23)|m); }
  *e=(int)ex-126; return bf(s|(126u<<23)|m); }
float ldexpf(float x, int n) {
  uint32_t b=fb(x), s=b&0x80000000u; int ex=(b>>23)&255; uint32_t m=b&0x7fffff;
  if (ex==255||(ex==0&&m==0)) return x;
  if (ex==0) { int sh=0; while (!(m&0x800000)) { m<<=1; sh++; } ex=1-sh; } else m|=0x800000;
  if (n>400) n=400; if (n<-400) n=-400;
  int e=ex+n; if (e>=255) return bf(s|0x7f800000u); if (e>0) return bf(s|((uint32_t)e<<23)|(m&0x7fffff));
  int sh=1-e; if (sh>25) return bf(s); uint32_t q=m>>sh, r=m&((1u<<sh)-1), h=1u<<(sh-1); if (r>h||(r==h&&(q&1))) q++; return bf(s|q); }
double frexp(double x, int* e) { __vf_cutoff("frexp"); return 0; }
double ldexp(double x, int n) { __vf_cutoff("ldexp"); return 0; }
/* ---- in-memory files */
typedef struct VFILE { struct VNODE* n; size_t pos; int w, eof, sink; } VFILE;
typedef struct VNODE { char name[128]; char* data; size_t len, cap; int used; } VNODE;
static VNODE vf_nodes[8]; static VFILE vf_out_={0,0,1,0,1}, vf_err_={0,0,1,0,1}, vf_in_={0,0,0,1,1};
VFILE *stdout=&vf_out_, *stderr=&vf_err_, *stdin=&vf_in_;
static VNODE* vf_find(const char* n, int create) { for (int i=0;i<8;i++) if (vf_nodes[i].used&&!strcmp(vf_nodes[i].name,n)) return &vf_nodes[i]; if (!create) return 0; for (int i=0;i<8;i++) if (!vf_nodes[i].used) { if (strlen(n)>127) return 0; vf_nodes[i].used=1; strcpy(vf_nodes[i].name,n); return &vf_nodes[i]; } return 0; }
static void vf_grow(VNODE* n, size_t need) { if (n->cap>=need) return; size_t c=n->cap?n->cap:256; while (c<need) c*=2; char* d=calloc(c,1); if (n->len) memcpy(d,n->data,n->len); if (n->data) free(n->data); n->data=d; n->cap=c; }
VFILE* fopen(const char* nm, const char* mode) { int w = mode[0]!='r'; VNODE* n=vf_find(nm,w); if (!n) { vf_errno=2; return 0; } if (mode[0]=='w') n->len=0; VFILE* f=malloc(sizeof(VFILE)); f->n=n; f->pos=mode[0]=='a'?n->len:0; f->w=w; f->eof=0; f->sink=0; return f; }
int fclose(VFILE* f) { if (!f->sink) free(f); return 0; }
size_t fwrite(const void* p, size_t sz, size_t k, VFILE* f) { size_t n=sz*k; if (f->sink) return k; vf_grow(f->n,f->pos+n); if (n) memcpy(f->n->data+f->pos,p,n); f->pos+=n; if (f->n->len<f->pos) f->n->len=f->pos; return k; }
size_t fread(void* p, size_t sz, size_t k, VFILE* f) { size_t n=sz*k, av=f->n->len-f->pos; if (f->pos>f->n->len) av=0; if (n>av) { n=av; f->eof=1; } if (n) memcpy(p,f->n->data+f->pos,n); f->pos+=n; return sz?n/sz:0; }
int fgetc(VFILE* f) { if (f->sink||f->pos>=f->n->len) { f->eof=1; return -1; } return (unsigned char)f->n->data[f->pos++]; }
int getc(VFILE* f) { return fgetc(f); }
int ungetc(int c, VFILE* f) { if (f->pos) f->pos--; f->eof=0; return c; }
char* fgets(char* s, int n, VFILE* f) { int i=0; while (i<n-1) { int c=fgetc(f); if (c<0) break; s[i++]=(char)c; if (c=='\n') break; } if (!i) return 0; s[i]=0; return s; }
long getline(char** l, size_t* cap, VFILE* f) { size_t n=0; if (!*l||*cap<2) { if (*l) free(*l); *cap=128; *l=malloc(128); } for (;;) { int c=fgetc(f); if (c<0) break; if (n+2>*cap) { *cap*=2; *l=realloc(*l,*cap); } (*l)[n++]=(char)c; if (c=='\n') break; } if (!n) return -1; (*l)[n]=0; return (long)n; }
int feof(VFILE* f) { return f->eof; } int ferror(VFILE* f) { return 0; }
int fseek(VFILE* f, long o, int wh) { long b= wh==0?0:wh==1?(long)f->pos:(long)f->n->len; if (b+o<0) return -1; f->pos=b+o; f->eof=0; return 0; }
long ftell(VFILE* f) { return (long)f->pos; } void rewind(VFILE* f) { f->pos=0; f->eof=0; }
int fflush(VFILE* f) { return 0; } void perror(const char* s) {} int remove(const char* n) { VNODE* v=vf_find(n,0); if (!v) return -1; v->used=0; v->len=0; return 0; } int unlink(const char* n) { return remove(n); } int access(const char* n, int m) { return vf_find(n,0)?0:-1; }
int fputc(int c, VFILE* f) { char b=(char)c; fwrite(&b,1,1,f); return c; } int fputs(const char* s, VFILE* f) { fwrite(s,1,strlen(s),f); return 1; } int putchar(int c) { return c; } int puts(const char* s) { __vf_str_ok(s); return 1; } int putc(int c, VFILE* f) { return fputc(c,f); }
char* realpath(const char* p, char* out) { if (!vf_find(p,0)) { vf_errno=2; return 0; } if (!out) out=malloc(strlen(p)+1); strcpy(out,p); return out; }
void __vf_file_put(const char* nm, const void* b, size_t len) { VNODE* n=vf_find(nm,1); n->len=0; vf_grow(n,len+1); memcpy(n->data,b,len); n->len=len; }
int __vf_file_get(const char* nm, void** b, size_t* len) { VNODE* n=vf_find(nm,0); if (!n) return 0; *len=n->len; *b=malloc(n->len+1); if (n->len) memcpy(*b,n->data,n->len); ((char*)*b)[n->len]=0; return 1; }
static char vf_ename[64], vf_eval[8192]; static int vf_eset; int setenv(const char* n, const char* v, int o) { strcpy(vf_ename,n); strcpy(vf_eval,v); vf_eset=1; return 0; } /* one variable */
char* getenv(const char* n) { return vf_eset&&!strcmp(n,vf_ename)?vf_eval:0; } char* secure_getenv(const char* n) { return 0; }
struct vf_tv { long s,u; }; int gettimeofday(struct vf_tv* t, void* z) { t->s=1000; t->u=7; return 0; } long time(long* t) { if (t) *t=1000; return 1000; } long clock(void) { return 0; }
/* ---- formatting. precise=0: only touch the arguments (diagnostics) */
typedef struct { char* b; size_t n, cap; int grow; VFILE* f; } SINK;
static void put(SINK* k, char c) { if (k->f) { fwrite(&c,1,1,k->f); k->n++; return; } if (k->grow) { if (k->n+2>k->cap) { k->cap=k->cap?2*k->cap:64; k->b=realloc(k->b,k->cap); } k->b[k->n++]=c; return; } if (k->n+1<k->cap) k->b[k->n]=c; k->n++; }
static void vf_fmt(SINK* k, const char* f, va_list ap, int precise) {
  for (;*f;f++) {
    if (*f!='%') { put(k,*f); continue; }
    const char* st=f; f++; int left=0, zero=0, plus=0, width=0, prec=-1, lng=0; char spec[32]; int sn=0;
    for (;;f++) { if (*f=='-') left=1; else if (*f=='0') zero=1; else if (*f=='+'||*f==' ') plus=*f; else if (*f!='#') break; }
    if (*f=='*') { width=va_arg(ap,int); f++; } else while (isdigit(*f)) width=width*10+*f++-'0';
    if (*f=='.') { f++; prec=0; if (*f=='*') { prec=va_arg(ap,int); f++; } else while (isdigit(*f)) prec=prec*10+*f++-'0'; }
    while (*f=='l'||*f=='h'||*f=='z'||*f=='j'||*f=='t') { if (*f=='l'||*f=='z'||*f=='j'||*f=='t') lng=1; else lng--; f++; }
    switch (*f) {
    case '%': put(k,'%'); break;
    case 'c': { int c=va_arg(ap,int); for (int i=1;!left&&i<width;i++) put(k,' '); put(k,(char)c); for (int i=1;left&&i<width;i++) put(k,' '); break; }
    case 's': { const char* s=va_arg(ap,const char*); if (!s) s="(null)"; if (!precise) { if (prec!=0) __vf_str_ok(s); put(k,'s'); break; } size_t n= prec>=0?strnlen(s,(size_t)prec):strlen(s); for (size_t i=n;!left&&i<(size_t)width;i++) put(k,' '); for (size_t i=0;i<n;i++) put(k,s[i]); for (size_t i=n;left&&i<(size_t)width;i++) put(k,' '); break; }
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
      unsigned long v; int neg=0; unsigned base= (*f=='x'||*f=='X'||*f=='p')?16:*f=='o'?8:10;
      if (*f=='p') v=va_arg(ap,unsigned long);
      else if (*f=='d'||*f=='i') { long x= lng>0?va_arg(ap,long):(long)va_arg(ap,int); if (lng==-1) x=(short)x; if (lng==-2) x=(signed char)x; if (!precise) { put(k,'0'); break; } neg=x<0; v=neg?0-(unsigned long)x:(unsigned long)x; }
      else { v= lng>0?va_arg(ap,unsigned long):(unsigned long)va_arg(ap,unsigned); if (lng==-1) v=(unsigned short)v; if (lng==-2) v=(unsigned char)v; }
      if (!precise) { put(k,'0'); break; }
      char t[24]; int n=0; if (lng<=0) { uint32_t u=(uint32_t)v; do { uint32_t d=u%base; t[n++]=(char)(d+(d<10?'0':(*f=='X'?'A'-10:'a'-10))); u/=base; } while (u); } else do { unsigned long d=v%base; t[n++]=(char)(d+(d<10?'0':(*f=='X'?'A'-10:'a'-10))); v/=base; } while (v);
      int tot=n; if (prec>n) tot=prec; int sg=neg||plus; if (zero&&!left&&prec<0&&width>tot+sg) tot=width-sg; for (int i=tot+sg;!left&&i<width;i++) put(k,' '); if (neg) put(k,'-'); else if (plus) put(k,(char)plus); for (int i=n;i<tot;i++) put(k,'0'); for (int i=n;i>0;i--) put(k,t[i-1]); for (int i=tot+sg;left&&i<width;i++) put(k,' '); break; }
    case 'f': case 'F': case 'g': case 'G': case 'e': case 'E': { double d=va_arg(ap,double); if (!precise) { put(k,'0'); break; } uint64_t bits; memcpy(&bits,&d,8); while (st<=f&&sn<31) spec[sn++]=*st++; spec[sn]=0; char t[512]; int n=__vf_fmt_double(t,spec,d); for (int i=0;i<n;i++) put(k,t[i]); break; }
    default: __vf_cutoff("printf conversion"); } } }
int vsnprintf(char* b, size_t n, const char* f, va_list ap) { SINK k={b,0,n,0,0}; vf_fmt(&k,f,ap,1); if (n) b[k.n<n?k.n:n-1]=0; return (int)k.n; }
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap,f); int r=vsnprintf(b,n,f,ap); va_end(ap); return r; }
int vsprintf(char* b, const char* f, va_list ap) { return vsnprintf(b,1ul<<30,f,ap); }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap,f); int r=vsnprintf(b,1ul<<30,f,ap); va_end(ap); return r; }
int vf_precise_asprintf;   /* harness may ask for exact text */
int vasprintf(char** o, const char* f, va_list ap) { SINK k={0,0,0,1,0}; vf_fmt(&k,f,ap,vf_precise_asprintf); put(&k,0); *o=k.b; return (int)k.n-1; }
int asprintf(char** o, const char* f, ...) { va_list ap; va_start(ap,f); int r=vasprintf(o,f,ap); va_end(ap); return r; }
int vfprintf(VFILE* fl, const char* f, va_list ap) { if (fl->sink) { SINK k={0,0,0,0,0}; vf_fmt(&k,f,ap,0); return 0; } SINK k={0,0,0,0,fl}; vf_fmt(&k,f,ap,1); return (int)k.n; }
int fprintf(VFILE* fl, const char* f, ...) { va_list ap; va_start(ap,f); int r=vfprintf(fl,f,ap); va_end(ap); return r; }
int vprintf(const char* f, va_list ap) { return vfprintf(stdout,f,ap); }
int printf(const char* f, ...) { va_list ap; va_start(ap,f); int r=vfprintf(stdout,f,ap); va_end(ap); return r; }
/* ---- misc */
void qsort(void* b, size_t n, size_t sz, int (*cmp)(const void*,const void*)) { char* p=b; char t[256]; if (sz>256) __vf_cutoff("qsort"); for (size_t i=1;i<n;i++) { memcpy(t,p+i*sz,sz); size_t j=i; while (j>0&&cmp(p+(j-1)*sz,t)>0) { memcpy(p+j*sz,p+(j-1)*sz,sz); j--; } memcpy(p+j*sz,t,sz); } }
void* bsearch(const void* key, const void* b, size_t n, size_t sz, int (*cmp)(const void*,const void*)) { size_t l=0,h=n; while (l<h) { size_t m=(l+h)/2; const char* e=(const char*)b+m*sz; int c=cmp(key,e); if (!c) return (void*)e; if (c<0) h=m; else l=m+1; } return 0; }
int rand(void) { return 4; } void srand(unsigned s) {}
float fminf(float a, float b) { return a!=a?b:b!=b?a:a<b?a:b; } float fmaxf(float a, float b) { return a!=a?b:b!=b?a:a>b?a:b; }
