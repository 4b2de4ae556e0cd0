/* Preloaded: from the FAIL_AT-th allocation on (or only that one, with FAIL_ONCE) no memory is available. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
extern void *__libc_malloc(size_t), *__libc_calloc(size_t,size_t), *__libc_realloc(void*,size_t);
static long n=-1, cnt;
static int fail(void){ if(n==-1){char*e=getenv("FAIL_AT"); n=e?atol(e):0;} cnt++; if (n>0 && (getenv("FAIL_ONCE") ? cnt==n : cnt>=n)){errno=ENOMEM;return 1;} return 0;}
void *malloc(size_t s){return fail()?0:__libc_malloc(s);}
void *calloc(size_t a,size_t s){return fail()?0:__libc_calloc(a,s);}
void *realloc(void*p,size_t s){return fail()?0:__libc_realloc(p,s);}
__attribute__((destructor)) static void d(){ char*e=getenv("FAIL_COUNT"); if(e){FILE*f=fopen(e,"w"); if(f){fprintf(f,"%ld\n",cnt);fclose(f);}}}
