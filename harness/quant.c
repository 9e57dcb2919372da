#include <string.h>
#include <eml_common.h>
#include <eml_quantizer.h>
/* f/c <scale> <n> <outn> v..   forward without / with counting (and the other one beside it)
   i   <scale> <n> <outn> q..   inverse.      values as hexadecimal floats */
int main(void) {
    static char line[1<<20];
    while (fgets(line, sizeof line, stdin)) {
        char op = line[0], *p = line + 1; EmlQuantizer q = { strtof(p,&p) }; int n = strtol(p,&p,10), on = strtol(p,&p,10);
        if (op == 'P') {      /* P <scale> <m> <reps> v..   the pattern repeated, and the inverse of what was written */
            int m = n, reps = on, N = m * reps; float *v = malloc(sizeof(float) * N), *b = malloc(sizeof(float) * N); for (int i=0;i<m;i++) v[i] = strtof(p,&p);
            for (int i=m;i<N;i++) v[i] = v[i-m];
            int16_t *o = malloc(N * 2), *o2 = malloc(N * 2); for (int i=0;i<N;i++) { o[i] = o2[i] = 12321; b[i] = 123456.0f; } int u = -77, w = -78;
            int e = eml_quantizer_check_forward_int16(&q, v, N, o, N, &u, &w), e2 = eml_quantizer_forward_int16(&q, v, N, o2, N), e3 = eml_quantizer_inverse_int16(&q, o, N, b, N);
            int per = 1, bper = 1, inper = 1; for (int i=m;i<N;i++) { per &= o[i] == o[i-m]; bper &= b[i] == b[i-m]; inper &= v[i] == v[i-m]; }
            printf("{\"op\":\"long\",\"m\":%d,\"reps\":%d,\"ret\":%d,\"bret\":%d,\"same\":%s,\"periodic\":%s,\"bperiodic\":%s,\"under\":%d,\"over\":%d,\"scale\":\"%a\",\"v\":[", m, reps, e, e3, e == e2 && inper && !memcmp(o, o2, N*2)?"true":"false", per?"true":"false", bper?"true":"false", u, w, q.scale);
            for (int i=0;i<m;i++) printf("%s\"%a\"", i?",":"", v[i]); printf("],\"o\":["); for (int i=0;i<m;i++) printf("%s%d", i?",":"", o[i]); printf("],\"back\":["); for (int i=0;i<m;i++) printf("%s\"%a\"", i?",":"", b[i]); printf("]}\n");
            free(v); free(b); free(o); free(o2);
        } else if (op == 'i') {
            int16_t *v = malloc(n * 2); float *o = malloc(sizeof(float) * on); for (int i=0;i<n;i++) v[i] = strtol(p,&p,10); for (int i=0;i<on;i++) o[i] = 123456.0f;
            int e = eml_quantizer_inverse_int16(&q, v, n, o, on); int un = 1; for (int i=0;i<on;i++) un &= o[i] == 123456.0f;
            printf("{\"op\":\"cinv\",\"n\":%d,\"outn\":%d,\"ret\":%d,\"untouched\":%s,\"scale\":\"%a\",\"v\":[", n, on, e, un?"true":"false", q.scale);
            for (int i=0;i<n;i++) printf("%s%d", i?",":"", v[i]); printf("],\"o\":["); for (int i=0;i<on;i++) printf("%s\"%a\"", i?",":"", o[i]); printf("]}\n"); free(v); free(o);
        } else {
            float *v = malloc(sizeof(float) * n), *v2 = malloc(sizeof(float) * n); for (int i=0;i<n;i++) v2[i] = v[i] = strtof(p,&p);
            int16_t *o = malloc(on * 2), *o2 = malloc(on * 2); for (int i=0;i<on;i++) o[i] = o2[i] = 12321; int u = -77, w = -78;
            int e, e2; if (op == 'c') { e = eml_quantizer_check_forward_int16(&q, v, n, o, on, &u, &w); e2 = eml_quantizer_forward_int16(&q, v2, n, o2, on); }
            else { e = eml_quantizer_forward_int16(&q, v, n, o, on); e2 = eml_quantizer_check_forward_int16(&q, v2, n, o2, on, &u, &w); }
            int un = 1; for (int i=0;i<on;i++) un &= o[i] == 12321 && o2[i] == 12321; if (n != on) un &= u == -77 && w == -78;
            int same = e == e2 && !memcmp(o, o2, on * 2) && !memcmp(v, v2, sizeof(float) * n);
            printf("{\"op\":\"fwd\",\"n\":%d,\"outn\":%d,\"ret\":%d,\"untouched\":%s,\"same\":%s,\"counted\":true,\"under\":%d,\"over\":%d,\"scale\":\"%a\",\"v\":[", n, on, e, un?"true":"false", same?"true":"false", u, w, q.scale);
            for (int i=0;i<n;i++) printf("%s\"%a\"", i?",":"", v[i]); printf("],\"o\":["); for (int i=0;i<on;i++) printf("%s%d", i?",":"", o[i]); printf("]}\n"); free(v); free(v2); free(o); free(o2);
        }
        fflush(stdout);
    }
    return 0;
}
