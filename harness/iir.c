#include <eml_iir.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define N 64
static EmlIIR F[N];
int main(void) {
    static char line[1<<18];
    while (fgets(line, sizeof line, stdin)) {
        char *p = line; char op = *p++;
        #define I ((int)strtol(p,&p,10))
        #define D ((float)strtod(p,&p))
        if (op == 'n') {      /* n f stages coef.. (6 per stage, a0 included) */
            int f=I, k=I; float *c = malloc(sizeof(float)*6*k), *s = malloc(sizeof(float)*4*k);
            for (int i=0;i<6*k;i++) c[i] = D;
            for (int i=0;i<4*k;i++) s[i] = 0;
            F[f] = (EmlIIR){ k, s, 4*k, c, 6*k };
            printf("{\"op\":\"new\",\"f\":%d,\"ret\":%d}\n", f, (int)eml_iir_check(F[f]));
        } else if (op == 'f') {
            int f=I; float x=D, y = eml_iir_filter(F[f], x);
            printf("{\"op\":\"feed\",\"f\":%d,\"x\":\"%a\",\"y\":\"%a\"}\n", f, x, y);
        } else if (op == 'c') {   /* check stages states? nstates coefs? ncoefs */
            int k=I, s=I, ns=I, c=I, nc=I; static float dummy[4]; EmlIIR x = { k, s ? dummy : NULL, ns, c ? dummy : NULL, nc };
            printf("{\"op\":\"check\",\"stages\":%d,\"states\":%s,\"nstates\":%d,\"coefs\":%s,\"ncoefs\":%d,\"ret\":%d}\n", k, s?"true":"false", ns, c?"true":"false", nc, (int)eml_iir_check(x));
        }
        fflush(stdout);
    }
    return 0;
}
