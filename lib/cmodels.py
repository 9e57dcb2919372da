"""Compile many generated models into few executables and call them."""
import os, subprocess, json
from concurrent.futures import ThreadPoolExecutor
import vf

MAIN = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <math.h>
'''

def build(c, models, per=14, san=True, flags=()):
    """models: list of dict(id, code, body) where body is a C function body with
    (double *x, int n, FILE *o) that calls the model and prints JSON fields (without braces).
    Returns a function call(id, x) batch runner: run(list of (id, x)) -> list of dict / {'crash':..}"""
    groups = [models[i:i + per] for i in range(0, len(models), per)]
    bins = {}
    def one(gi):
        g = groups[gi]
        src = MAIN + '\n'.join('#line 1 "%s"\n%s' % (m['id'], m['code']) for m in g)
        src += '\nextern int volatile vf_sink;\nint volatile vf_sink;\n'
        for k, m in enumerate(g):
            src += 'static void call_%d(double *x, int n) {\n%s\n}\n' % (k, m['body'])
        src += 'typedef void (*vf_call)(double *, int);\nstatic const vf_call calls[] = {%s};\n' % ', '.join('call_%d' % k for k in range(len(g)))
        src += r'''
int main(void) {
    static char line[1<<20];
    while (fgets(line, sizeof line, stdin)) {
        char *p = line; long k = strtol(p, &p, 10); long n = strtol(p, &p, 10);
        double *x = malloc(sizeof(double) * (n > 0 ? n : 1));
        for (long i = 0; i < n; i++) x[i] = strtod(p, &p);
        printf("{"); calls[k](x, (int)n); printf("}\n"); fflush(stdout);
        free(x);
    }
    return 0;
}
'''
        fn = c.path('gen', 'g%d_%d.c' % (id(models) % 100000, gi))
        open(fn, 'w').write(src)
        try:
            b = c.cc(fn, out=fn[:-2] + '.bin', san=san, flags=flags)
        except vf.Broken as e:
            # isolate: compile models one by one
            if len(g) == 1: return {g[0]['id']: (None, str(e)[-600:])}
            out = {}
            for j, m in enumerate(g):
                fn1 = fn[:-2] + '_%d.c' % j
                s1 = MAIN + m['code'] + '\nstatic void call_0(double *x, int n) {\n%s\n}\ntypedef void (*vf_call)(double *, int);\nstatic const vf_call calls[] = {call_0};\n' % m['body'] + src[src.index('\nint main(void)'):]
                open(fn1, 'w').write(s1)
                try: out[m['id']] = (c.cc(fn1, out=fn1[:-2] + '.bin', san=san, flags=flags), 0)
                except vf.Broken as e2: out[m['id']] = (None, str(e2)[-600:])
            return out
        return {m['id']: (b, k) for k, m in enumerate(g)}
    with ThreadPoolExecutor(vf.NCPU) as ex:
        for d in ex.map(one, range(len(groups))): bins.update(d)

    def run(jobs, timeout=60):
        """jobs: list of (id, x). Results in order; a crash/hang of one call is reported for that call only."""
        res = [None] * len(jobs)
        by = {}
        for j, (mid, x) in enumerate(jobs):
            b, k = bins[mid]
            if b is None: res[j] = {'nocompile': k}
            else: by.setdefault(b, []).append((j, k, x))
        def go(b):
            todo = by[b]; pos = 0
            while pos < len(todo):
                inp = ''.join('%d %d %s\n' % (k, len(x), ' '.join(float(v).hex() for v in x)) for j, k, x in todo[pos:])
                try:
                    r = subprocess.run([b], input=inp, capture_output=True, text=True, timeout=timeout, env=c.env(), errors='replace')
                    out, rc, err = r.stdout, r.returncode, r.stderr
                except subprocess.TimeoutExpired as e:
                    out = e.stdout.decode('utf8', 'replace') if isinstance(e.stdout, bytes) else (e.stdout or ''); rc, err = 'hang', ''
                lines = [l for l in out.split('\n') if l.endswith('}')]
                for i, l in enumerate(lines): res[todo[pos + i][0]] = json.loads(l)
                pos += len(lines)
                if pos < len(todo):
                    res[todo[pos][0]] = {'crash': 'hang' if rc == 'hang' else (err.split('\n')[1] if len(err.split('\n')) > 1 else str(rc))[:200]}
                    pos += 1
        with ThreadPoolExecutor(vf.NCPU) as ex: list(ex.map(go, list(by)))
        return res
    return run
