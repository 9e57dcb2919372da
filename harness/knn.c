#include <eml_neighbors.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static EmlNeighborsModel m; static EmlNeighborsDistanceItem *dist; static int dcap;
static void state(void) {
    printf(",\"n\":%d,\"items\":[", m.n_items);
    for (int i=0;i<m.n_items;i++) { printf("%s[", i?",":""); for (int j=0;j<m.n_features;j++) printf("%s%d", j?",":"", m.data[i*m.n_features+j]); printf("]"); }
    printf("],\"labels\":["); for (int i=0;i<m.n_items;i++) printf("%s%d", i?",":"", m.labels[i]); printf("]");
}
static int16_t *values(char **p, int n) { int16_t *v = malloc(sizeof(int16_t)*n); for (int i=0;i<n;i++) v[i] = (int16_t)strtol(*p, p, 10); return v; }
static void pv(const char *k, const int16_t *v, int n) { printf("\"%s\":[", k); for (int i=0;i<n;i++) printf("%s%d", i?",":"", v[i]); printf("]"); }
int main(void) {
    static char line[1<<20]; setvbuf(stdout, NULL, _IOLBF, 1<<16);
    while (fgets(line, sizeof line, stdin)) {
        char *p = line; while (*p && *p != ' ' && *p != '\n') p++; char op = line[0];
        if (op == 'i') {            /* init nf cap k n0 (v.. label)*  */
            int nf = strtol(p,&p,10), cap = strtol(p,&p,10), k = strtol(p,&p,10), n0 = strtol(p,&p,10);
            memset(&m, 0, sizeof m); m.n_features = nf; m.max_items = cap; m.k_neighbors = k;
            m.data = malloc(sizeof(int16_t)*nf*cap); m.labels = malloc(sizeof(int16_t)*cap);
            for (int i=0;i<n0;i++) { for (int j=0;j<nf;j++) m.data[i*nf+j] = strtol(p,&p,10); m.labels[i] = strtol(p,&p,10); }
            m.n_items = n0;
            printf("{\"op\":\"init\",\"nf\":%d,\"cap\":%d,\"k\":%d", nf, cap, k); state(); printf("}\n");
        } else if (op == 'a') {     /* add label n v.. */
            int lab = strtol(p,&p,10), n = strtol(p,&p,10); int16_t *v = values(&p, n);
            EmlError e = eml_neighbors_add_item(&m, v, n, lab);
            printf("{\"op\":\"add\",\"label\":%d,\"ret\":%d,", lab, (int)e); pv("v", v, n); state(); printf("}\n"); free(v);
        } else if (op == 'p') {     /* predict d n v.. */
            int d = strtol(p,&p,10), n = strtol(p,&p,10); int16_t *v = values(&p, n);
            dist = malloc(sizeof(*dist) * (d > 0 ? d : 0)); int16_t out = 77;
            EmlError e = eml_neighbors_predict(&m, v, n, dist, d, &out);
            printf("{\"op\":\"predict\",\"d\":%d,\"ret\":%d,\"out\":%d,\"out0\":77,", d, (int)e, out); pv("v", v, n); state(); printf("}\n"); free(v); free(dist);
        } else if (op == 'c') {
            int a = strtol(p,&p,10), b = strtol(p,&p,10), c = strtol(p,&p,10);
            printf("{\"op\":\"check\",\"dl\":%d,\"ll\":%d,\"xl\":%d,\"ret\":%d}\n", a, b, c, (int)eml_neighbors_check(&m, a, b, c));
        }
        fflush(stdout);
    }
    return 0;
}
