#include <string.h>
#include <eml_csv.h>
#include <eml_fileio.h>
#include <math.h>
#include <unistd.h>
/* a stream with scheduled faults, in memory or on a FILE in the current (scratch) directory */
static uint8_t *M; static size_t mlen, mcap, mpos; static int filemode; static FILE *wf, *rf;
static int fk, fn, fmode, fired;           /* pending fault: kind, after n further calls, mode */
/* the library calls back into its caller here (told to harness/heapwatch.c, when linked) */
void vf_out(void) __attribute__((weak)); void vf_in(void) __attribute__((weak));
#define OUT() do { if (vf_out) vf_out(); } while (0)
#define IN() do { if (vf_in) vf_in(); } while (0)
static int due(int kind) { if (fk != kind) return 0; if (fn-- > 0) return 0; fk = 0; fired = 1; return 1; }
static void append(const uint8_t *b, size_t n) { if (mlen + n > mcap) { OUT(); mcap = 2 * (mlen + n) + 64; M = realloc(M, mcap); IN(); } memcpy(M + mlen, b, n); mlen += n; if (filemode && wf) { fwrite(b, 1, n, wf); fflush(wf); } }
static int s_write(void *c, const uint8_t *b, size_t n) {
    if (due('w')) { if (fmode == 0) return -1; size_t k = fmode == 1 ? n / 2 : (n ? n - 1 : 0); append(b, k); return (int)k; }
    if (filemode) { int r = eml_fileio_write(wf, b, n); fflush(wf); FILE *w = wf; wf = NULL; append(b, r); wf = w; return r; }
    append(b, n); return (int)n;
}
static int s_read(void *c, uint8_t *b, size_t n) {
    if (due('r')) return -1;
    if (filemode) return eml_fileio_read(rf, b, n);
    size_t k = mlen - mpos < n ? mlen - mpos : n; memcpy(b, M + mpos, k); mpos += k; return (int)k;
}
static int s_seek(void *c, size_t p) {
    if (due('s')) return fmode == 0 ? -1 : fmode == 1 ? 1 : 256;
    if (filemode) return eml_fileio_seek(rf, p);
    if (p > mlen) return -1; mpos = p; return 0;
}
static void bytes(const uint8_t *b, size_t n) { printf("["); for (size_t i=0;i<n;i++) printf("%s%d", i?",":"", b[i]); printf("]"); }
static void strs(char **s, int n) { printf("["); for (int i=0;i<n;i++) { if (i) printf(","); bytes((uint8_t *)s[i], strlen(s[i])); } printf("]"); }
static int unhex(const char *h, uint8_t *o) { int n = 0; for (; h[0] && h[1] && h[0] != ' ' && h[0] != '\n'; h += 2) { unsigned x; sscanf(h, "%2x", &x); o[n++] = x; } return n; }
#define T(x) ((x)?"true":"false")
int main(void) {
    static char line[1<<20]; static uint8_t tmp[1<<19];
    EmlCsvWriter w = { 0, s_write, s_seek, NULL }; EmlCsvReader r = { 0, 0, s_read, s_seek, NULL };
    setvbuf(stdout, NULL, _IOFBF, 1<<20);
    while (fgets(line, sizeof line, stdin)) {
        char op[16] = ""; int at = 0; sscanf(line, "%15s %n", op, &at); char *p = line + at; size_t l0 = mlen; fired = 0;
        if (!strcmp(op,"backend")) { filemode = p[0]=='f'; if (filemode) { char n[64]; sprintf(n, "s%d.csv", (int)getpid()); wf = fopen(n, "wb"); rf = fopen(n, "rb"); remove(n); } continue; }
        if (!strcmp(op,"fault")) { char k; sscanf(p, "%c %d %d", &k, &fn, &fmode); fk = k; continue; }
        if (!strcmp(op,"newfile")) { mlen = 0; printf("{\"op\":\"newfile\"}\n"); fflush(stdout); continue; }   /* (memory only) the same writer goes on with an empty stream */
        if (!strcmp(op,"nofault")) { fk = 0; continue; }
        if (!strcmp(op,"file")) { int n = unhex(p, tmp); append(tmp, n); printf("{\"op\":\"file\",\"text\":"); bytes(tmp, n); printf("}\n"); }
        else if (!strcmp(op,"wheader")) {
            int n = 0; char **cols = malloc(sizeof(char *) * (strlen(p) + 1)); char *tok = strtok(p, " \n");
            while (tok) { cols[n] = malloc(strlen(tok) + 2); int k = tok[0]=='-' ? 0 : unhex(tok, (uint8_t *)cols[n]); cols[n++][k] = 0; tok = strtok(NULL, " \n"); }
            EmlError e = eml_csv_writer_write_header(&w, (const char **)cols, n);
            printf("{\"op\":\"wheader\",\"cols\":"); strs(cols, n); printf(",\"ret\":%d,\"fault\":%s,\"added\":", (int)e, T(fired)); bytes(M + l0, mlen - l0); printf("}\n"); for (int i=0;i<n;i++) free(cols[i]); free(cols);
        } else if (!strcmp(op,"wdata")) {
            float *v = malloc(sizeof(float) * (strlen(p) + 1)); int n = 0, wide = 0; char *tok = strtok(p, " \n");
            while (tok) { v[n++] = strtod(tok, NULL); tok = strtok(NULL, " \n"); }
            v = realloc(v, n ? n * sizeof(float) : 1);
            EmlError e = eml_csv_writer_write_data(&w, v, n);
            printf("{\"op\":\"wdata\",\"vals\":[");
            for (int i=0;i<n;i++) { char b[128]; int k = snprintf(b, sizeof b, "%.6f", v[i]); double a = fabs(v[i]); if (k >= 20) { wide = 1; a = 0; }
                double ip = floor(a); long c = lround((a - ip) * 1e6); long long q = (long long)ip;
                printf("%s{\"neg\":%s,\"mag\":[%lld,%lld,%ld]}", i?",":"", T(signbit(v[i])), q / 1000000, q % 1000000, c); }
            printf("],\"wide\":%s,\"ret\":%d,\"fault\":%s,\"added\":", T(wide), (int)e, T(fired)); bytes(M + l0, mlen - l0); printf("}\n"); free(v);
        } else if (!strcmp(op,"open")) { mpos = 0; if (filemode) fseek(rf, 0, SEEK_SET); memset(&r, 0, sizeof r); r.read = s_read; r.seek = s_seek; printf("{\"op\":\"open\"}\n"); }
        else if (!strcmp(op,"rheader") || !strcmp(op,"rdata")) {
            int bl = 0, cl = 0; sscanf(p, "%d %d", &bl, &cl); char *b = malloc(bl); char **cs = malloc(sizeof(char *) * cl);
            fflush(stdout); int ret, n;
            if (op[1]=='h') { ret = eml_csv_reader_read_header(&r, b, bl, cs, cl); n = ret == 0 ? (int)r.n_columns : 0; }
            else { ret = eml_csv_reader_read_data(&r, b, bl, cs, cl); n = ret > 0 ? ret : 0; }
            printf("\n{\"op\":\"%s\",\"buflen\":%d,\"collen\":%d,\"ret\":%d,\"fault\":%s,\"n\":%d,\"%s\":", op, bl, cl, ret, T(fired), n, op[1]=='h' ? "names" : "vals"); strs(cs, n); printf("}\n");
            free(b); free(cs);
        }
        fflush(stdout);
    }
    return 0;
}
