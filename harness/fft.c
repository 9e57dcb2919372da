#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <eml_fft.h>
#define N 32
static EmlFFT T[N];
int main(void) {
    size_t cap = 1<<22; char *line = malloc(cap);
    while (fgets(line, cap, stdin)) {
        char *p = line; char op = *p++;
        #define I ((int)strtol(p,&p,10))
        if (op == 't') {          /* t id len n : table of len entries filled for n */
            int id=I, len=I, n=I; float *s = malloc(len*sizeof(float)), *c = malloc(len*sizeof(float));
            T[id] = (EmlFFT){ len, s, c };
            printf("{\"op\":\"fill\",\"id\":%d,\"n\":%d,\"len\":%d,\"ret\":%d}\n", id, n, len, (int)eml_fft_fill(T[id], n));
        } else if (op == 'x') {   /* x id n m (pos re im)*m nk k* ; nk = -1: all */
            int id=I, n=I, m=I; float *re = calloc(n?n:1, sizeof(float)), *im = calloc(n?n:1, sizeof(float));
            re = n ? re : realloc(re, 0);
            char *q = p;
            for (int i=0;i<m;i++) { int pos=I; re[pos] = I; im[pos] = I; }
            int ret = eml_fft_forward(T[id], re, im, n);
            int nk=I; int same = 1;
            float *r2 = calloc(n+1, sizeof(float)), *i2 = calloc(n+1, sizeof(float));
            char *keep = p; p = q; for (int i=0;i<m;i++) { int pos=I; r2[pos] = I; i2[pos] = I; } p = keep;
            if (n) same = !memcmp(r2, re, n*sizeof(float)) && !memcmp(i2, im, n*sizeof(float));
            printf("{\"op\":\"dft\",\"id\":%d,\"n\":%d,\"len\":%d,\"ret\":%d,\"untouched\":%s,\"out\":[", id, n, T[id].length, ret, same?"true":"false");
            int tot = nk < 0 ? n : nk;
            if (ret == 0) for (int i=0;i<tot;i++) { int k = nk < 0 ? i : I; printf("%s[%d,\"%a\",\"%a\"]", i?",":"", k, re[k], im[k]); }
            printf("]}\n");
            free(re); free(im); free(r2); free(i2);
        }
        fflush(stdout);
    }
    return 0;
}
