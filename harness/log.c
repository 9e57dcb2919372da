/* log entries, checked functions, and what the library logs.  VF_CAPTURE: own printer; else stderr is read back */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
static char vf_buf[1 << 22]; static size_t vf_n;
#ifdef VF_CAPTURE
static int vf_log(const char *fmt, ...) { va_list a; va_start(a, fmt); int r = vsnprintf(vf_buf + vf_n, sizeof vf_buf - vf_n, fmt, a); va_end(a); vf_n += r; return r; }
#define EML_LOG_PRINTF(...) vf_log(__VA_ARGS__)
#endif
#include <eml_common.h>
#include <eml_neighbors.h>
static const char *vf_file;
static void take(void) {
#ifndef VF_CAPTURE
    fflush(stderr); FILE *f = fopen(vf_file, "r"); static long at; fseek(f, at, SEEK_SET); vf_n = fread(vf_buf, 1, sizeof vf_buf - 1, f); at += vf_n; fclose(f);
#endif
}
static void text(void) {
    take(); printf("\"text\":\"");
    for (size_t i = 0; i < vf_n; i++) { unsigned char ch = vf_buf[i]; if (ch == '\n') printf("\\n"); else if (ch == '"' || ch == '\\') printf("\\%c", ch); else if (ch < 32) printf("\\u%04x", ch); else putchar(ch); }
    printf("\""); vf_n = 0;
}
/* checked functions */
static int acts, nhook, hooks[64], places_ok, want_line;
#ifdef EML_DEBUG
static void hook(EmlError code, const char *file, int line) { hooks[nhook++] = (int)code; if (line != want_line || !strstr(file, "log.c")) places_ok = 0; }
#endif
static char *P;
static void skip(void) { int d = 0; for (;;) { while (*P == ' ') P++; if (*P == '(') d++; if (*P == ')' && d-- == 0) { P++; return; } P++; } }
static EmlError run(void) {       /* steps up to ")" */
    for (;;) {
        while (*P == ' ') P++;
        char k = *P++;
        if (k == ')') return EmlOk;
        if (k == 'a') acts++;
        else if (k == '(') {
            char *q = P; skip(); char *after = P; P = q;
            EML_CHECK_ERROR(run());
            P = after;
        } else {
            int ok = strtol(P, &P, 10); EmlError code = (EmlError)strtol(P, &P, 10);
            if (k == 'p') { want_line = __LINE__ + 1;
                EML_PRECONDITION(ok, code);
            } else if (k == 'q') { want_line = __LINE__ + 1;
                EML_POSTCONDITION(ok && code, code);
            } else { want_line = __LINE__ + 1;
                EML_PRECONDITION(ok || !code, code);
            }
        }
    }
}
static EmlNeighborsModel m; static int16_t data[4096], labels[256]; static EmlNeighborsDistanceItem dist[256];
int main(int argc, char **argv) {
    static char line[1 << 20]; setvbuf(stdout, NULL, _IOLBF, 1 << 16);
    const char *plain = getenv("VF_PLAIN");
#ifndef VF_CAPTURE
    char name[] = "/tmp/vflogXXXXXX"; if (!plain) { char n2[600]; snprintf(n2, sizeof n2, "%s/vflogXXXXXX", getenv("VF_DIR") ? getenv("VF_DIR") : "."); int fd = mkstemp(n2); (void)fd; vf_file = strdup(n2); if (!freopen(n2, "w", stderr)) return 9; }
    (void)name;
#endif
#ifdef EML_DEBUG
    if (!plain) eml_debug = getenv("VF_NOHOOK") ? NULL : hook;
#endif
    while (fgets(line, sizeof line, stdin)) {
        char *p = line + 1; char op = line[0]; char key[64], val[256]; int used = 0;
        if (op == 'B') { int n = strtol(p, &p, 10); if (n == 0) EML_LOG_BEGIN("my-event"); else if (n == 1) EML_LOG_BEGIN("e"); else EML_LOG_BEGIN("eml_some_long.event-name/start"); }
        else if (op == 'S') { sscanf(p, "%63s %255s", key, val); EML_LOG_ADD(key, val); }
        else if (op == 'I') { sscanf(p, "%63s%n", key, &used); p += used; int a = strtol(p, &p, 10), b = strtol(p, &p, 10); if (b) EML_LOG_ADD_INTEGER(key, b < 0 ? a : a + 0 * b); else EML_LOG_ADD_INTEGER(key, a); }
        else if (op == 'O') { sscanf(p, "%63s%n", key, &used); p += used; int k = strtol(p, &p, 10), a = strtol(p, &p, 10), b = strtol(p, &p, 10);
            if (k == 0) EML_LOG_ADD_BOOL(key, a); else if (k == 1) EML_LOG_ADD_BOOL(key, a || b); else if (k == 2) EML_LOG_ADD_BOOL(key, a && b); else if (k == 3) EML_LOG_ADD_BOOL(key, a > b); else if (k == 4) EML_LOG_ADD_BOOL(key, a == b); else EML_LOG_ADD_BOOL(key, a ? b : !b); }
        else if (op == 'F') { sscanf(p, "%63s%n", key, &used); p += used; double v = strtod(p, &p); float f = (float)v; if (strtol(p, &p, 10)) EML_LOG_ADD_FLOAT(key, f); else EML_LOG_ADD_FLOAT(key, v); }
        else if (op == 'A') { sscanf(p, "%63s%n", key, &used); p += used; static int v[4096]; int n = strtol(p, &p, 10); for (int i = 0; i < n; i++) v[i] = strtol(p, &p, 10); EML_LOG_ADD_ARRAY(key, v, n, "%d"); }
        else if (op == 'G') { sscanf(p, "%63s%n", key, &used); p += used; static float v[4096]; int n = strtol(p, &p, 10); for (int i = 0; i < n; i++) v[i] = strtof(p, &p); EML_LOG_ADD_ARRAY(key, v, n, "%.4f"); }
        else if (op == 'E') { EML_LOG_END(); printf("{"); text(); printf("}\n"); }
        else if (op == 'R') { acts = nhook = 0; places_ok = 1; P = p; EmlError r = run();
            printf("{\"op\":\"run\",\"ret\":%d,\"acts\":%d,\"places\":%s,\"hooks\":[", (int)r, acts, places_ok ? "true" : "false"); for (int i = 0; i < nhook; i++) printf("%s%d", i ? "," : "", hooks[i]); printf("]}\n"); vf_n = 0; }
        else if (op == 'i') { int nf = strtol(p, &p, 10), cap = strtol(p, &p, 10), k = strtol(p, &p, 10); memset(&m, 0, sizeof m); m.n_features = nf; m.max_items = cap; m.data = data; m.labels = labels; m.k_neighbors = k; printf("{\"op\":\"init\"}\n"); }
        else if (op == 'a') { int lab = strtol(p, &p, 10); int16_t v[16]; for (int i = 0; i < m.n_features; i++) v[i] = strtol(p, &p, 10); int n = m.n_items; take(); vf_n = 0; EmlError r = eml_neighbors_add_item(&m, v, m.n_features, lab); printf("{\"op\":\"lib\",\"what\":\"add\",\"ret\":%d,\"n\":%d,\"label\":%d,", (int)r, n, lab); text(); printf("}\n"); }
        else if (op == 'p') { int16_t v[16], out = -1; for (int i = 0; i < m.n_features; i++) v[i] = strtol(p, &p, 10); take(); vf_n = 0;
            EmlError r = eml_neighbors_predict(&m, v, m.n_features, dist, 256, &out); printf("{\"op\":\"lib\",\"what\":\"predict\",\"ret\":%d,\"answer\":%d,\"k\":%d,\"labels\":[", (int)r, out, m.k_neighbors); for (int i = 0; i < m.n_items; i++) printf("%s%d", i ? "," : "", labels[i]);
            printf("],\"dists\":["); for (int i = 0; i < m.n_items; i++) printf("%s%u", i ? "," : "", (unsigned)eml_distance_euclidean_int16(v, m.data + i * m.n_features, m.n_features)); printf("],"); text(); printf("}\n"); }
    }
    if (plain) printf("{\"after\":true}\n");
#ifndef VF_CAPTURE
    if (vf_file) remove(vf_file);
#endif
    return 0;
}
