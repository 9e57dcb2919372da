/* Watches one process: which functions of the library run (-finstrument-functions), and every
   reference to the allocator from compiled code (-Wl,--wrap). Not itself instrumented. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dlfcn.h>
static int depth; static long calls, shown, skipped; static FILE *out; static int silent; static void *top;
#define LIMIT 150
static FILE *o(void) { if (!out) { const char *n = getenv("VF_HEAP_OUT"); silent = 1; out = n ? fopen(n, "a") : stderr; silent = 0; } return out; }
static void flushskip(void) { if (skipped) { fprintf(o(), "{\"op\":\"many\",\"n\":%ld}\n", skipped); skipped = 0; } }
void __cyg_profile_func_enter(void *fn, void *site) {
    if (depth++ == 0) { calls++; top = fn; if (shown < LIMIT) fprintf(o(), "{\"op\":\"enter\",\"fn\":\"%p\"}\n", fn); else skipped++; }
}
void __cyg_profile_func_exit(void *fn, void *site) {
    if (--depth == 0 && shown < LIMIT) { fprintf(o(), "{\"op\":\"leave\",\"fn\":\"%p\"}\n", fn); shown++; }
}
/* the library calls back into its caller, and resumes */
static int away;
void vf_out(void) { if (!depth) return; away = depth; depth = 0; if (shown < LIMIT) fprintf(o(), "{\"op\":\"leave\",\"fn\":\"callback\"}\n"); }
void vf_in(void) { if (!away) return; depth = away; away = 0; if (shown < LIMIT) fprintf(o(), "{\"op\":\"enter\",\"fn\":\"callback\"}\n"); }
static long outside, inside;
static void note(const char *what, int isfree, void *site) {
    if (silent) return;
    if (depth > 0) { if (inside++ < 20) { if (skipped) { flushskip(); fprintf(o(), "{\"op\":\"inside\",\"what\":\"%s\",\"fn\":\"%p\"}\n", what, top); } else fprintf(o(), "{\"op\":\"%s\",\"what\":\"%s\",\"fn\":\"%p\"}\n", isfree ? "free" : "alloc", what, top); } }
    else if (outside++ < 100) { flushskip(); fprintf(o(), "{\"op\":\"%s\",\"what\":\"%s\"}\n", isfree ? "free" : "alloc", what); }
}
#define S __builtin_return_address(0)
void *__real_malloc(size_t); void *__wrap_malloc(size_t n) { note("malloc", 0, S); return __real_malloc(n); }
void *__real_calloc(size_t, size_t); void *__wrap_calloc(size_t a, size_t b) { note("calloc", 0, S); return __real_calloc(a, b); }
void *__real_realloc(void *, size_t); void *__wrap_realloc(void *p, size_t n) { note("realloc", 0, S); return __real_realloc(p, n); }
void __real_free(void *); void __wrap_free(void *p) { note("free", 1, S); __real_free(p); }
char *__real_strdup(const char *); char *__wrap_strdup(const char *s) { note("strdup", 0, S); return __real_strdup(s); }
char *__real_strndup(const char *, size_t); char *__wrap_strndup(const char *s, size_t n) { note("strndup", 0, S); return __real_strndup(s, n); }
void *__real_aligned_alloc(size_t, size_t); void *__wrap_aligned_alloc(size_t a, size_t n) { note("aligned_alloc", 0, S); return __real_aligned_alloc(a, n); }
int __real_posix_memalign(void **, size_t, size_t); int __wrap_posix_memalign(void **p, size_t a, size_t n) { note("posix_memalign", 0, S); return __real_posix_memalign(p, a, n); }
__attribute__((destructor)) static void finish(void) { flushskip(); fprintf(o(), "{\"op\":\"end\",\"calls\":%ld}\n", calls); fflush(o()); }
