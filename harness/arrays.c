#include <eml_array.h>
#include <eml_vector.h>
#include <limits.h>
#define N 3
static EmlArray A[N+1]; static int live[N+1];
static long rd(const uint8_t *p, int vs) { switch (vs) { case 1: return *(int8_t *)p; case 2: { int16_t v; memcpy(&v,p,2); return v; } case 4: { int32_t v; memcpy(&v,p,4); return v; } default: { int64_t v; memcpy(&v,p,8); return (long)v; } } }
static void wr(uint8_t *p, int vs, long x) { switch (vs) { case 1: *(int8_t *)p = x; break; case 2: { int16_t v = x; memcpy(p,&v,2); break; } case 4: { int32_t v = x; memcpy(p,&v,4); break; } default: { int64_t v = x; memcpy(p,&v,8); } } }
static void table(const EmlArray *a) {
    printf("["); for (int r=0;r<a->dims[1];r++) { printf("%s[", r?",":""); for (int c=0;c<a->dims[0];c++) printf("%s%ld", c?",":"", rd(a->data + (size_t)(r*a->dims[0]+c)*a->value_size, a->value_size)); printf("]"); } printf("]");
}
static void state(void) {
    printf(",\"A\":["); for (int i=1;i<=N;i++) { printf("%s{\"live\":%d", i>1?",":"", live[i]); if (live[i]) { printf(",\"cols\":%d,\"rows\":%d,\"vs\":%d,\"t\":", A[i].dims[0], A[i].dims[1], A[i].value_size); table(&A[i]); } printf("}"); } printf("]");
}
static int wcols, wrows, wvs; static long counter;
static void fvec(const char *k, const float *v, int n) { printf(",\"%s\":[", k); for (int i=0;i<n;i++) printf("%s%d", i?",":"", (int)v[i]); printf("]"); }
int main(void) {
    static char line[1<<18]; 
    while (fgets(line, sizeof line, stdin)) {
        char *p = line, op[16]; int k=0; while (*p && *p!=' ' && *p!='\n' && k<15) op[k++]=*p++; op[k]=0;
        #define I ((int)strtol(p,&p,10))
        if (!strcmp(op,"init")) {  /* init a nd cols rows d2 vs len */
            int a=I, nd=I, cols=I, rows=I, d2=I, vs=I, len=I;
            EmlArray before = A[a]; uint8_t *buf = malloc(len > 0 ? len : 0);
            for (int i=0;i<len;i++) buf[i] = 0;
            int32_t dims[3] = { cols, rows, d2 };
            EmlError e = eml_array_init_full(&A[a], nd, dims, vs, buf, len);
            printf("{\"op\":\"init\",\"a\":%d,\"nd\":%d,\"cols\":%d,\"rows\":%d,\"vs\":%d,\"len\":%d,\"ret\":%d,\"pat\":[", a, nd, cols, rows, vs, len, (int)e);
            if (e == EmlOk && nd == 2) { live[a] = 1; 
                for (int r=0;r<rows;r++) { printf("%s[", r?",":""); for (int c=0;c<cols;c++) { long v = (a*37 + ++counter) % 120; wr(buf + (size_t)(r*cols+c)*vs, vs, v); printf("%s%ld", c?",":"", v); } printf("]"); } }
            else if (e == EmlOk) { A[a] = before; }   /* other dimensionalities are not modelled */
            printf("]"); state(); printf("}\n");
        } else if (!strcmp(op,"put")) {
            int a=I, col=I, row=I, v=I; uint8_t *q = eml_array_data_2d(&A[a], col, row);
            if (q) wr(q, A[a].value_size, v);
            printf("{\"op\":\"put\",\"a\":%d,\"col\":%d,\"row\":%d,\"v\":%d,\"off\":%ld", a, col, row, v, q ? (long)(q - A[a].data) : -1L); state(); printf("}\n");
        } else if (!strcmp(op,"fill")) {
            int a=I, v=I, q=I; float f = v + (v < 0 ? -q : q) / 4.0f; EmlError e = eml_array_fill(&A[a], f);
            printf("{\"op\":\"fill\",\"a\":%d,\"v\":%d,\"ret\":%d", a, v, (int)e); state(); printf("}\n");
        } else if (!strcmp(op,"sum")) {
            int a=I; float s = -12345; EmlError e = eml_array_sum(&A[a], &s);
            printf("{\"op\":\"sum\",\"a\":%d,\"ret\":%d,\"sum0\":-12345,\"sum\":%d", a, (int)e, s == (float)(int)s ? (int)s : -999999999); state(); printf("}\n");
        } else if (!strcmp(op,"shift")) {
            int a=I, s=I; EmlError e = eml_array_shift_rows(&A[a], s);
            printf("{\"op\":\"shift\",\"a\":%d,\"s\":%d,\"ret\":%d", a, s, (int)e); state(); printf("}\n");
        } else if (!strcmp(op,"copy")) {
            int a=I, s=I, b=I; EmlError e = eml_array_copy_rows(&A[a], s, &A[b]);
            printf("{\"op\":\"copy\",\"a\":%d,\"s\":%d,\"b\":%d,\"ret\":%d", a, s, b, (int)e); state(); printf("}\n");
        } else if (!strcmp(op,"window")) {   /* window cols rows vs */
            wcols=I; wrows=I; wvs=I; counter = 0; size_t len = (size_t)wcols*wrows*wvs; uint8_t *buf = malloc(len);
            for (int i=0;i<wcols*wrows;i++) wr(buf + (size_t)i*wvs, wvs, 100 + i % 20);
            int32_t dims[3] = { wcols, wrows, 0 }; EmlError e = eml_array_init_full(&A[1], 2, dims, wvs, buf, len); live[1] = e == EmlOk;
            printf("{\"op\":\"window\",\"cols\":%d,\"rows\":%d,\"vs\":%d,\"ret\":%d,\"pat\":", wcols, wrows, wvs, (int)e); table(&A[1]); printf("}\n");
        } else if (!strcmp(op,"push")) {
            int n=I; size_t len = (size_t)wcols*n*wvs; uint8_t *buf = malloc(len);
            for (int i=0;i<wcols*n;i++) wr(buf + (size_t)i*wvs, wvs, (counter++) % 97);
            int32_t dims[3] = { wcols, n, 0 }; eml_array_init_full(&A[2], 2, dims, wvs, buf, len); live[2] = 1;
            printf("{\"op\":\"push\",\"chunk\":"); table(&A[2]);
            EmlError e = eml_array_shift_rows(&A[1], -n); EmlError e2 = eml_array_copy_rows(&A[1], wrows - n, &A[2]);
            printf(",\"ret\":%d,\"ret2\":%d", (int)e, (int)e2); state(); printf("}\n"); free(buf); live[2] = 0; 
        } else if (!strcmp(op,"vset") || !strcmp(op,"vfill")) {  /* vset total start end loc srclen */
            int total=I, start=I, end=I, loc=I, sl=I; float *v = malloc(sizeof(float)*total), *src = malloc(sizeof(float)*(sl > 0 ? sl : 0));
            for (int i=0;i<total;i++) v[i] = 10+i; for (int i=0;i<sl;i++) src[i] = 200+i;
            EmlVector base = { v, total }; EmlVector view = eml_vector_view(base, start, end);
            printf("{\"op\":\"%s\",\"start\":%d,\"n\":%d,\"loc\":%d,\"val\":%d", op, start, view.length == end-start && view.data == v+start ? end-start : -1, loc, loc);
            fvec("v0", v, total); fvec("src", src, sl);
            int r = op[1]=='s' ? eml_vector_set(view, (EmlVector){ src, sl }, loc) : (int)eml_vector_set_value(view, loc);
            fvec("v1", v, total); fvec("src1", src, sl); printf(",\"ret\":%d}\n", r); free(v); free(src);
        }
        fflush(stdout);
    }
    return 0;
}
