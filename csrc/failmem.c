/* Preloaded library: the VP_FAIL-th allocation made by the program itself (not by libraries) returns NULL.
 * VP_COUNT: file that receives the number of allocations at the end. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <link.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
extern void *__libc_malloc(size_t), *__libc_calloc(size_t,size_t), *__libc_realloc(void*,size_t);
static char *lo,*hi; static long cnt, fail=-1;
static int first(struct dl_phdr_info *i, size_t s, void *d)
{ int k; for(k=0;k<i->dlpi_phnum;k++) if(i->dlpi_phdr[k].p_type==PT_LOAD&&(i->dlpi_phdr[k].p_flags&PF_X)){ lo=(char*)i->dlpi_addr+i->dlpi_phdr[k].p_vaddr; hi=lo+i->dlpi_phdr[k].p_memsz; } return 1; }
static void done(void){ char *f=getenv("VP_COUNT"); FILE *p; if(f&&(p=fopen(f,"w"))){ fprintf(p,"%ld\n",cnt); fclose(p); } }
__attribute__((constructor)) static void init(void){ char *s=getenv("VP_FAIL"); dl_iterate_phdr(first,NULL); if(s) fail=atol(s); atexit(done); }
static int bad(void *ra){ if(!lo||(char*)ra<lo||(char*)ra>=hi) return 0; if(++cnt==fail){ errno=ENOMEM; return 1; } return 0; }
void *malloc(size_t n){ if(bad(__builtin_return_address(0))) return NULL; return __libc_malloc(n); }
void *calloc(size_t a,size_t b){ if(bad(__builtin_return_address(0))) return NULL; return __libc_calloc(a,b); }
void *realloc(void *p,size_t n){ if(bad(__builtin_return_address(0))) return NULL; return __libc_realloc(p,n); }
