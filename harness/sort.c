#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <eml_neighbors.h>
/* kind 0: eml_neighbors_sort_distances; 1: the generic sort as shipped; 2: the generic sort with a small threshold;
   kinds 1 and 2 record the positions that were accessed */
typedef struct { long key; int id; } It;
static It *A; static int N; static long lo, hi;
static void acc(long i) { if (i < lo) lo = i; if (i > hi) hi = i; if (i < 0 || i >= N) { printf("{\"op\":\"out-of-bounds\",\"i\":%ld}\n", i); fflush(stdout); _exit(0); } }
#define LESS(i, j) (acc(i), acc(j), A[i].key < A[j].key)
#define SWAP(i, j) do { acc(i); acc(j); It t_ = A[i]; A[i] = A[j]; A[j] = t_; } while (0)
static void s1(void) { QSORT(N, LESS, SWAP); }
#undef Q_THRESH
#define Q_THRESH 5
static void s2(void) { QSORT(N, LESS, SWAP); }
int main(void) {
    static char line[1<<20]; setvbuf(stdout, NULL, _IOFBF, 1<<20);
    while (fgets(line, sizeof line, stdin)) {
        char *p = line; int big = 0, m = 0, shape = 0; unsigned seed = 0; if (*p == 'L') { p++; big = 1; }   /* L kind n m shape seed: many items with keys 0..m-1 made here */
        int kind = strtol(p,&p,10); N = strtol(p,&p,10);
        long *k0 = malloc(sizeof(long)*(N+1)); A = malloc(sizeof(It)*N); lo = 0; hi = N-1;
        if (big) { m = strtol(p,&p,10); shape = strtol(p,&p,10); seed = strtol(p,&p,10); }
        for (int i=0;i<N;i++) { if (big) { seed = seed * 1664525u + 1013904223u; k0[i] = shape == 0 ? (long)((seed >> 8) % m) : shape == 1 ? (long)((long long)i * m / N) : shape == 2 ? (long)((long long)(N-1-i) * m / N) : i % m; } else k0[i] = strtol(p,&p,10); A[i].key = k0[i]; A[i].id = i+1; }
        if (kind == 0) {
            EmlNeighborsDistanceItem *D = malloc(sizeof(*D)*N);
            for (int i=0;i<N;i++) { D[i].index = i+1; D[i].distance = k0[i]; }
            fflush(stdout); eml_neighbors_sort_distances(D, N);
            for (int i=0;i<N;i++) { A[i].key = D[i].distance; A[i].id = D[i].index; }
            free(D);
        } else if (kind == 1) s1(); else s2();
        if (big) {
            char *seen = calloc(N + 1, 1); int perm = 1, carried = 1; long *cnt = calloc(m, sizeof(long));
            for (int i=0;i<N;i++) { cnt[k0[i]]++; int id = A[i].id; if (id < 1 || id > N || seen[id]) perm = 0; else { seen[id] = 1; carried &= A[i].key == k0[id-1]; } }
            printf("{\"op\":\"many\",\"kind\":%d,\"n\":%d,\"touched\":[%ld,%ld],\"once\":%s,\"carried\":%s,\"counts\":[", kind, N, lo, hi, perm?"true":"false", carried?"true":"false");
            for (int k=0;k<m;k++) printf("%s%ld", k?",":"", cnt[k]); printf("],\"runs\":["); int r = 0;
            for (int i=0;i<N && r<2000;) { int j = i; while (j<N && A[j].key == A[i].key) j++; printf("%s[%ld,%d]", r++?",":"", A[i].key, j-i); i = j; }
            printf("]}\n"); fflush(stdout); free(seen); free(cnt); free(A); free(k0); continue;
        }
        printf("{\"op\":\"sort\",\"kind\":%d,\"touched\":[%ld,%ld],\"keys0\":[", kind, lo, hi);
        for (int i=0;i<N;i++) printf("%s%ld", i?",":"", k0[i]);
        printf("],\"keys\":["); for (int i=0;i<N;i++) printf("%s%ld", i?",":"", A[i].key);
        printf("],\"ids\":["); for (int i=0;i<N;i++) printf("%s%d", i?",":"", A[i].id); printf("]}\n"); fflush(stdout);
        free(A); free(k0);
    }
    return 0;
}
