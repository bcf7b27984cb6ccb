/* Native replay runtime: feeds the solver's values to the harness, checks assertions for real. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
#include "vf.h"
#define MAXV 200000
static struct { unsigned w; unsigned long long v; } VALS[MAXV]; static unsigned long NV, CNT;
uint64_t __vf_sym(int bits, const char* name) {
  if (CNT>=NV) { fprintf(stderr,"VF_VALUES_EXHAUSTED\n"); fflush(0); _exit(96); }
  if ((int)VALS[CNT].w!=bits) { fprintf(stderr,"VF_VALUES_MISMATCH %s/%d vs %u at %lu\n",name,bits,VALS[CNT].w,CNT); _exit(96); }
  return VALS[CNT++].v;
}
void __vf_assume(int c) { if (!c) { fprintf(stderr,"VF_ASSUME_FALSE\n"); fflush(0); _exit(95); } }
void __vf_assert(int c, const char* m) { if (!c) { fprintf(stderr,"VF_ASSERT_FAIL %s\n",m); fflush(0); _exit(97); } }
void __vf_fail(const char* m) { __vf_assert(0,m); }
void __vf_reach(const char* w) { (void)w; }
uint64_t __vf_conc(uint64_t v) { return v; }
int __vf_is_sym(uint64_t v) { (void)v; return 0; }
void __vf_out(uint64_t v) { fprintf(stderr,"VF_OUT %llu\n",(unsigned long long)v); }
#if defined(__SANITIZE_ADDRESS__) || (defined(__has_feature) && __has_feature(address_sanitizer))
size_t __sanitizer_get_current_allocated_bytes(void);
uint64_t __vf_heap_bytes(void) { return __sanitizer_get_current_allocated_bytes(); }
#else
uint64_t __vf_heap_bytes(void) { return 0; }
#endif
void __vf_file_put(const char* n, const void* b, size_t len) { char d[256]; const char* e=strchr(n,'/'); if (e&&e-n<256) { memcpy(d,n,e-n); d[e-n]=0; mkdir(d,0755); } FILE* f=fopen(n,"wb"); if (!f) { perror(n); _exit(96); } fwrite(b,1,len,f); fclose(f); }
int __vf_file_get(const char* n, void** b, size_t* len) { FILE* f=fopen(n,"rb"); if (!f) return 0; fseek(f,0,SEEK_END); *len=ftell(f); rewind(f); *b=malloc(*len+1); if (fread(*b,1,*len,f)!=*len) { fclose(f); return 0; } ((char*)*b)[*len]=0; fclose(f); return 1; }
int main(int argc, char** argv) {
  if (argc>1) { FILE* f=fopen(argv[1],"r"); char nm[512]; if (!f) { perror(argv[1]); return 96; }
    while (NV<MAXV && fscanf(f,"%u %llu %511[^\n]",&VALS[NV].w,&VALS[NV].v,nm)==3) NV++; fclose(f); }
  /* results are read through a pipe */
  setvbuf(stderr,NULL,_IONBF,0);
  vf_main();
  fprintf(stderr,"VF_DONE\n"); fflush(0); _exit(0);
}
/* the C library is not instrumented: touch the stream first, so that reading from a closed one is seen */
#include <stdio.h>
#include <sys/types.h>
ssize_t getline(char** l, size_t* c, FILE* f) { volatile char x=*(volatile char*)f; (void)x; return getdelim(l,c,'\n',f); }
