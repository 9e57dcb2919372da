import os, sys, json, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, extrun, numpy
def check(c):
    rng = c.rng
    import emlearn.signal as sg
    cfg = 'INIT Init\nNEXT Next\nINVARIANTS InTable Product Prefix\nCONSTANTS\n ROWS=%d\n COLS=%d\n COEF=%s\n XS=%s\nCHECK_DEADLOCK FALSE\n'
    c.design_check('Filterbank_MC', cfg % (2, 3, '{0,1,2}', '{1,3}'), must=1000)
    if c.thorough: c.design_check('Filterbank_MC', cfg % (2, 4, '{0,1,2}', '{1,3}'), must=1000); c.design_check('Filterbank_MC', cfg % (3, 3, '{0,2}', '{0,1,3}'), must=1000)
    # banks: matrix entries are integers / 2^e, inputs integers
    banks = []
    def row(n, kind):
        r = [0] * n
        if kind == 'zero': return r
        if kind == 'full': return [rng.choice([-3, -1, 1, 2, 5]) for _ in range(n)]
        if kind == 'one': r[rng.randrange(n)] = rng.choice([1, 7, -2]); return r
        a = rng.randrange(n); b = rng.randrange(a, min(n, a + 12))
        for j in range(a, b + 1): r[j] = rng.choice([1, 2, 3, -1, -7] if kind == 'span' else [0, 0, 1, 2, -3])
        if kind == 'ends':
            r[0] = 2; r[n - 1] = 3
        return r
    kinds = ['full', 'one', 'span', 'span', 'holes', 'holes', 'zero', 'ends']
    for i in range(150 if c.thorough else 40):
        n = rng.choice([1, 2, 3, 5, 16, 40]); m = rng.choice([1, 1, 2, 3, 8, 20])
        banks.append((n, [row(n, rng.choice(kinds if i % 3 else ['span', 'one'])) for _ in range(m)], rng.choice([0, 0, 2, 12, 24, 30])))
    for n, m in [(300, 3), (40000, 3), (70000, 4), (50, 300)]:
        rows = [row(n, rng.choice(['span', 'one', 'holes'])) for _ in range(m)]
        if n > 1000:
            for r in range(m):
                a = rng.choice([n - 20, 32760, 250, 126, n - 10, 65530 if n > 66000 else 100]); rows[r] = [0] * n
                for j in range(a, min(n, a + 12)): rows[r][j] = rng.choice([1, 2, -3])
        banks.append((n, rows, 0))
    # a table of more than 32768 / 65536 coefficients
    banks.append((1200, [[rng.choice([1, 2, -3, 1]) for _ in range(1200)] for _ in range(60)], 0))
    sess = []; calls = []; cmeta = []
    cdecl = []; cmain = []; cc_meta = []
    for b, (n, rows, e) in enumerate(banks):
        big = n >= 1000
        M = numpy.array(rows, dtype=rng.choice(['float64', 'float64', 'float32'])).reshape(len(rows), n) / (2.0 ** e)
        if e == 0 and rng.random() < .3: M = M.astype(rng.choice(['int64', 'int16']))
        s = dict(id='bank-%d' % b, ev=[]); sess.append(s)
        try: sp = sg.sparse_filterbank(M)
        except Exception as ex: s['ev'].append(dict(op='raised', why=repr(ex)[:200], rows=[[[j, v] for j, v in enumerate(r) if v] for r in rows] if not big else [])); continue
        xs = []
        for _ in range(3):
            x = [0] * n
            nz = [j for r in rows for j in range(n) if r[j]] or [0]
            for j in (rng.sample(nz, min(len(nz), 20)) + [rng.randrange(n) for _ in range(20)]) if n > 40 else range(n): x[j] = rng.randrange(-50, 51)
            xs.append(x)
        # a unit vector where a filter begins or ends
        for r in rng.sample(rows, min(2, len(rows))):
            nzr = [j for j in range(n) if r[j]]
            if nzr: x = [0] * n; x[rng.choice([nzr[0], nzr[-1]])] = 1; xs.append(x)
        def ev(via, x, out, rows=rows, e=e):
            need = {j for j, v in enumerate(x) if v}
            return dict(op='apply', via=via, rows=[[[j, int(v)] for j, v in enumerate(r) if v and j in need] for r in rows], x=[[j, v] for j, v in enumerate(x) if v], out=[vf.scaled(v, 2 ** e) for v in out])
        for x in xs if not (big and n < 2000) else xs[:2]:
            try: s['ev'].append(ev('python', x, sg.sparse_filterbank_reduce(sp, numpy.array(x, dtype=rng.choice(['float64', 'float32', 'int64'])))))
            except Exception as ex: s['ev'].append(dict(op='raised', why=repr(ex)[:200]))
            calls.append(('sparse_filterbank', [extrun.arr(x), extrun.arr([int(v) for v in sp[0]], 'int64'), extrun.arr([int(v) for v in sp[1]], 'int32'), extrun.arr([float(v) for v in sp[2]])])); cmeta.append((s, ev, x))
        text = sg.sparse_filterbank_serialize(sp, name='bank%d' % b)
        cdecl.append(text)
        for x in xs:
            # exact buffers on the heap: the sanitizer sees any index outside
            cmain.append('run(%d, bank%d_bands, bank%d_starts, bank%d_ends, bank%d_lut);' % ((n,) + (b,) * 4)); cc_meta.append((s, ev, x))
    src = c.path('c', 'bank.c')
    with open(src, 'w') as f:
        f.write('#include <stdio.h>\n#include <stdlib.h>\n#include <eml_audio.h>\n' + '\n'.join(cdecl))
        f.write('''
static void run(int n, int bands, const int *starts, const int *stops, const float *lut) {
  float *in = malloc(sizeof(float)*n), *out = malloc(sizeof(float)*bands); int k, j, v;
  for (int i=0;i<n;i++) in[i] = 0;
  for (int i=0;i<bands;i++) out[i] = 12345.0f;   /* no need to clear the output first */
  if (scanf("%d", &k) != 1) exit(0);
  while (k--) { if (scanf("%d %d", &j, &v) != 2) exit(0); in[j] = v; }
  int e = eml_sparse_filterbank(in, out, bands, starts, stops, lut);
  printf("{\\"op\\":\\"c\\",\\"ret\\":%d,\\"out\\":[", e);
  for (int i=0;i<bands;i++) printf("%s\\"%a\\"", i?",":"", out[i]);
  printf("]}\\n"); free(in); free(out);
}
int main(void) {
''' + '\n'.join(cmain) + '\nreturn 0; }\n')
    last = dict(id='c', ev=[])
    try: b = c.cc(src)
    except vf.Broken as ex: last['ev'].append(dict(op='nocompile', why=str(ex)[-600:])); b = None
    if b:
        inp = '\n'.join('%d %s' % (sum(1 for v in x if v), ' '.join('%d %d' % (j, v) for j, v in enumerate(x) if v)) for s, _, x in cc_meta)
        evs = c.run_sessions(b, [dict(cmds=[inp])], timeout=120)[0]
        for e, (s, ev, x) in zip(evs, cc_meta):
            if e['op'] != 'c': last['ev'].append(e); break
            if e['ret']: s['ev'].append(dict(op='error', ret=e['ret']))
            else: s['ev'].append(ev('c', x, e['out']))
        if len(evs) > len(cc_meta): last['ev'].append(evs[-1])
    for r, (s, ev, x) in zip(extrun.call(c, 'eml_audio', calls), cmeta):
        if 'y' in r: s['ev'].append(ev('extension', x, r['y']))
        else: s['ev'].append(dict(op='crash' if 'crash' in r else 'raised', why=str(r)))
    for s in sess:
        if not s['ev']: raise vf.Broken('nothing recorded')
    c.judge('FilterbankTrace', [s for s in sess if s['ev']] + ([last] if last['ev'] else []))
vf.main('C17', check, assumptions=['coefficients are dyadic numbers, so that every sum is exact and compared exactly'])
