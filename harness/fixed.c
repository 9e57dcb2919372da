#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <eml_common.h>
#include <eml_fixedpoint.h>
int main(void) {
    static char line[1<<12];
    while (fgets(line, sizeof line, stdin)) {
        char op = line[0], *p = line + 1;
        if (op == 'f') { float x = strtof(p, &p); eml_q16_t q = EML_Q16_FROMFLOAT(x); printf("{\"op\":\"f\",\"x\":\"%a\",\"q\":%d,\"y\":\"%a\"}\n", x, q, EML_Q16_TOFLOAT(q)); }
        else if (op == 'd') { double x = strtod(p, &p); eml_q16_t q = EML_Q16_FROMFLOAT(x); printf("{\"op\":\"d\",\"x\":\"%a\",\"q\":%d,\"y\":\"%a\"}\n", x, q, EML_Q16_TOFLOAT(q)); }
        else if (op == 'i') { int i = strtol(p, &p, 10); eml_q16_t q = EML_Q16_FROMINT(i); printf("{\"op\":\"i\",\"i\":%d,\"q\":%d,\"back\":%d}\n", i, q, (int)EML_Q16_TOINT(q)); }
        else if (op == 't') { int q = strtol(p, &p, 10); printf("{\"op\":\"toint\",\"q\":%d,\"i\":%d}\n", q, (int)EML_Q16_TOINT(q)); }
        else if (op == '*') { eml_q16_t a = strtol(p, &p, 10), b = strtol(p, &p, 10); printf("{\"op\":\"mul\",\"a\":%d,\"b\":%d,\"q\":%d}\n", a, b, (int)eml_q16_mul(a, b)); }
        else if (op == '/') { int a = strtol(p, &p, 10), b = strtol(p, &p, 10); printf("{\"op\":\"div\",\"a\":%d,\"b\":%d,\"q\":%d}\n", a, b, eml_q16_div(a, b)); }
        fflush(stdout);
    }
    return 0;
}
