#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <eml_audio.h>
static EmlVector vec(int n) { EmlVector v = { n ? malloc(n * sizeof(float)) : malloc(1), n }; if (!n) v.data = realloc(v.data, 0); for (int i = 0; i < n; i++) v.data[i] = 0.0f; return v; }
static void out(const float *d, int n) { printf("\"out\":["); for (int i = 0; i < n; i++) printf("%s\"%a\"", i ? "," : "", d[i]); printf("]}\n"); }
int main(void) {
    size_t cap = 1 << 22; char *line = malloc(cap);
    while (fgets(line, cap, stdin)) {
        char *p = line; char op = *p++;
        #define I ((int)strtol(p, &p, 10))
        #define F ((float)strtod(p, &p))
        if (op == 'm') {        /* m sr n nm fmin fmax slen mlen cnt (pos v)* */
            EmlAudioMel m; m.samplerate = I; m.n_fft = I; m.n_mels = I; m.fmin = F; m.fmax = F;
            int slen = I, mlen = I, cnt = I; EmlVector s = vec(slen), o = vec(mlen), k = vec(slen);
            for (int i = 0; i < cnt; i++) { int pos = I; float v = F; s.data[pos] = k.data[pos] = v; }
            for (int i = 0; i < mlen; i++) o.data[i] = 77.0f;
            int ret = eml_audio_melspec(m, s, o);
            printf("{\"op\":\"mel\",\"ret\":%d,\"slen\":%d,\"mlen\":%d,\"kept\":%s,", ret, slen, mlen, !slen || !memcmp(s.data, k.data, slen * sizeof(float)) ? "true" : "false");
            out(o.data, ret ? 0 : mlen); free(s.data); free(o.data); free(k.data);
        } else if (op == 'g') { /* g sr n nm fmin fmax ilen tlen tab dirt v* */
            EmlAudioMel m; m.samplerate = I; m.n_fft = I; m.n_mels = I; m.fmin = F; m.fmax = F;
            int ilen = I, tlen = I, tab = I; float dirt = F; EmlVector x = vec(ilen), t = vec(tlen), a = vec(tab), b = vec(tab);
            EmlFFT fft = { tab, a.data, b.data }; int fr = eml_fft_fill(fft, 2 * tab); (void)fr;
            for (int i = 0; i < ilen; i++) x.data[i] = F;
            for (int i = 0; i < tlen; i++) t.data[i] = dirt * ((i * 7) % 5 - 2);
            int ret = eml_audio_melspectrogram(m, fft, x, t);
            printf("{\"op\":\"gram\",\"ret\":%d,\"ilen\":%d,\"tlen\":%d,\"tab\":%d,", ret, ilen, tlen, tab);
            out(x.data, ret ? 0 : m.n_mels < ilen ? m.n_mels : ilen); free(x.data); free(t.data); free(a.data); free(b.data);
        } else if (op == 'p') { /* p n ilen olen v* */
            int n = I, ilen = I, olen = I; EmlVector x = vec(ilen), o = vec(olen);
            for (int i = 0; i < ilen; i++) x.data[i] = F;
            int ret = eml_audio_power_spectrogram(x, o, n);
            printf("{\"op\":\"power\",\"n\":%d,\"ret\":%d,\"ilen\":%d,\"olen\":%d,", n, ret, ilen, olen);
            out(o.data, ret ? 0 : olen); free(x.data); free(o.data);
        } else if (op == 'h') { /* h n v* */
            int n = I; EmlVector x = vec(n); for (int i = 0; i < n; i++) x.data[i] = F;
            int ret = eml_signal_hann_apply(x.data, n);
            printf("{\"op\":\"hann\",\"ret\":%d,", ret); out(x.data, n); free(x.data);
        }
        fflush(stdout);
    }
    return 0;
}
