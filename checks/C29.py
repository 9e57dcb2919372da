import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, numpy, random, warnings
from fractions import Fraction
from concurrent.futures import ThreadPoolExecutor
# a C function that writes down what it is given, and what it answers
PROBE = r'''
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
static int seen = 0;
static void saw(const float *values, int length, const char *answer) {
    FILE *f = fopen("%(fn)s", "a");
    fprintf(f, "%%d", length);
    if (seen %% %(every)d == 0) { for (int i=0; i<length; i++) { fprintf(f, " %%a", (double)values[i]); } }
    fprintf(f, ";%%s\n", answer); fclose(f); seen++;
}
static uint32_t mix(const float *values, int length) {
    uint32_t h = 2166136261u;
    for (int i=0; i<length; i++) { union { float f; uint32_t u; } v; v.f = values[i]; h = (h ^ v.u) * 16777619u; h ^= h >> 13; }
    return h;
}
static const float scales[9] = { 0.0f, 1.0f, 1e-3f, 1e-6f, 1e-9f, 1e5f, 1e9f, 1e15f, 1e-20f };
static float number(uint32_t h) { return ((float)(int32_t)(h & 0xffffff) - 8388608.0f) * scales[(h >> 24) %% 9u]; }
float probe_float(const float *values, int length) {
    char s[64]; if (seen == %(bad)d) { %(fail)s }
    const float r = number(mix(values, length)); snprintf(s, sizeof s, "%%a", (double)r); saw(values, length, s); return r;
}
int probe_int(const float *values, int length) {
    char s[64]; if (seen == %(bad)d) { %(fail)s }
    const int r = (int)(mix(values, length) %% %(classes)du); snprintf(s, sizeof s, "%%d", r); saw(values, length, s); return r;
}
int probe_proba(const float *values, int length, float *out, int n) {
    static char s[40000]; int at = 0; s[0] = 0; if (seen == %(bad)d) { %(fail)s }
    for (int i=0; i<n; i++) { out[i] = fabsf(number(mix(values, length) * (uint32_t)(2*i+1) + (uint32_t)i)) / 1e10f; at += snprintf(s + at, sizeof s - (size_t)at, "%%s%%a", i ? " " : "", (double)out[i]); }
    saw(values, length, s); return 0;
}
'''
def hexs(x): return numpy.float32(x).item().hex() if x == x else 'nan'
def ahex(t): return float.fromhex(t).hex() if 'nan' not in t else 'nan'
def check(c):
    rng = c.rng; T = c.thorough
    import emlearn
    from emlearn.common import CompiledClassifier
    c.design_check('Host_MC', 'INIT Init\nNEXT Next\nINVARIANTS Right NoFalseError NoShort\nCONSTANTS\n ROWS=%d\n COLS=2\n BUF=12\n VALS=2\nCHECK_DEADLOCK FALSE\n' % (3 if T else 2), must=5000)
    # --- the pipeline, around a C function that records what it gets
    shapes = [(1, 1), (2, 3), (1, 7), (3, 1), (40, 4), (255, 2), (256, 2), (257, 3), (3000, 2), (70000, 1),
              (2, 63), (2, 127), (3, 128), (2, 255), (3, 256), (3, 257), (2, 400), (2, 1000), (2, 3000), (1, 10000), (2, 20000)]
    shapes += [(rng.randrange(1, 300), rng.randrange(1, 40)) for _ in range(60 if T else 12)]
    if T: shapes += [(200000, 1), (1, 60000), (33000, 5)]
    def value(r):
        k = r.random(); neg = r.choice([1, -1])
        if k < .15: return float(r.randrange(-5, 6))
        if k < .35: return neg * r.randrange(1, 10**9) / 10.0**8 + r.choice([0, 0, 4e-9])
        if k < .5: return neg * r.random() * 10**r.randrange(-8, 3)
        if k < .7: return neg * (r.random() + 0.5) * 2.0**r.randrange(-3, 20)
        if k < .8: return float(numpy.float32(r.uniform(-1000, 1000)))
        if k < .86: return neg * 5e-9 * r.randrange(1, 50)
        if k < .9: return float(r.randrange(-2**24, 2**24))
        if k < .95: return neg * r.random() * 10.0**r.randrange(3, 30)
        return r.choice([0.0, -0.0, 0.5, 32767.0, -32768.0, 65535.0, 3.0e38, 1e-12, 123456.78901234])
    cases = [(n, m, kind, None, None) for n, m in shapes for kind in (['int', 'float', 'proba'] if n * m <= 4000 and m <= 1000 else [rng.choice(['int', 'float', 'proba'])])]
    # rows on which the C code cannot answer
    for _ in range(40 if T else 14):
        n = rng.choice([1, 2, 5, 30, 300]); kind = rng.choice(['int', 'proba', 'int', 'proba', 'float'])
        fail = rng.choice(['return -1;', 'return -3;'] if kind == 'int' else ['return 1;', 'return 4;'] if kind == 'proba' else ['abort();']) if rng.random() < .6 else rng.choice(['abort();', 'exit(0);', 'exit(3);', '_Exit(0);'])
        cases.append((n, rng.choice([1, 3, 300]), kind, rng.randrange(n), fail))
    def one(a):
        k, (n, m, kind, bad, fail) = a; r = random.Random(c.seed * 7919 + k)
        fn = c.path('p%d' % k, 'saw.txt'); d = os.path.dirname(fn)
        every = 1 if n * m <= 400 else max(1, n // 3)
        classes = r.choice([2, 2, 3, 5, 10, 31, 300]) if kind == 'proba' else r.choice([2, 3, 10, 127, 128, 1000, 40000, 20000000])
        if n > 3000: classes = 2
        code = PROBE % dict(fn=fn, every=every, bad=-1 if bad is None else bad, fail=fail or ';', classes=classes)
        X = [[value(r) for _ in range(m)] for _ in range(n)] if n * m <= 60000 else (numpy.random.RandomState(k).standard_normal((n, m)) * 100).tolist()
        form = r.choice(['f8', 'f8', 'f4', 'F', 'strided', 'list', 'int', 'frame']) if n * m <= 60000 else 'f8'
        A = numpy.array(X)
        if form == 'f4': A = numpy.clip(A, -3e38, 3e38).astype('f4')
        elif form == 'F': A = numpy.asfortranarray(A)
        elif form == 'strided': B = numpy.zeros((2 * n, 2 * m)); B[::2, 1::2] = A; A = B[::2, 1::2]
        elif form == 'int': A = numpy.round(numpy.clip(A, -2.0**40, 2.0**40)).astype('int64')
        elif form == 'list': A = A.tolist()
        elif form == 'frame': import pandas; A = pandas.DataFrame(A, index=r.sample(range(10 * n), n))
        ref = numpy.array(A)
        e = dict(op='eval', via='%s-%s' % (kind, 'rows' if fail is None else 'failing'), n=n, cols=m, fits=fail is None, raised=False, form=form, classes=classes)
        try:
            kw = dict(call='probe_int(values, length)') if kind == 'int' else dict(call='probe_float(values, length)', out_dtype='float') if kind == 'float' else dict(call='probe_int(values, length)', proba_call='probe_proba(values, length, outputs, %d)' % classes, n_classes=classes)
            if m > 8192 or r.random() < .5: kw['n_features'] = m
            clf = CompiledClassifier(code, name='p%d' % k, temp_dir='w%d' % k, **kw)
            if kind == 'int': res = clf.predict(A)
            elif kind == 'float': res = clf.regress(A) if r.random() < .7 else clf.predict(A)
            else: res = clf.predict_proba(A)
        except Exception as ex:
            e.update(raised=True, why=repr(ex)[:200], res=[], want=[]); return dict(id='probe-%d-%dx%d-%s' % (k, n, m, kind), ev=[e])
        recs = [l.rstrip('\n').split(';') for l in open(fn)] if os.path.exists(fn) else []
        e['lens'] = [int(x[0].split()[0]) for x in recs]
        if kind == 'int': e['res'] = ['%d' % v for v in res]; e['want'] = [x[1] for x in recs]
        elif kind == 'float': e['res'] = [float(v).hex() for v in res]; e['want'] = [ahex(x[1]) for x in recs]
        else: e['res'] = [[float(v).hex() for v in row] for row in numpy.asarray(res)]; e['want'] = [[ahex(t) for t in x[1].split()] for x in recs]
        pairs = []
        for i, x in enumerate(recs):
            vs = x[0].split()[1:]
            if vs and i < n and len(vs) == m: pairs += [(float.fromhex(v), ref[i][j]) for j, v in enumerate(vs)]
        if len(pairs) > 120: pairs = r.sample(pairs, 120)
        pairs = [(a, b) for a, b in pairs if abs(a) != float('inf')] + [(0.0, 1.0) for a, b in pairs if abs(a) == float('inf')]
        e['saw'] = [vf.bigx(Fraction(float(a)), 64) for a, b in pairs]
        e['x'] = [vf.bigx(Fraction(float(b)) if not isinstance(b, numpy.integer) else int(b), 64) for a, b in pairs]
        return dict(id='probe-%d-%dx%d-%s' % (k, n, m, kind), ev=[e])
    with ThreadPoolExecutor(vf.NCPU) as ex: sess = list(ex.map(one, enumerate(cases)))
    # --- converted models: all rows at once against every row alone
    from sklearn.tree import DecisionTreeClassifier
    from sklearn.ensemble import RandomForestClassifier, ExtraTreesRegressor
    from sklearn.naive_bayes import GaussianNB
    from sklearn.neighbors import KNeighborsClassifier
    from sklearn.neural_network import MLPClassifier, MLPRegressor
    from sklearn.covariance import EllipticEnvelope
    from sklearn.mixture import GaussianMixture
    kinds = [('tree', lambda: DecisionTreeClassifier(random_state=1), {}, [1, 5, 127, 128, 300]), ('tree-loadable', lambda: DecisionTreeClassifier(random_state=1), dict(method='loadable'), [1, 5, 127]),
             ('forest', lambda: RandomForestClassifier(5, random_state=1), dict(dtype='float'), [3, 400]), ('soft', lambda: RandomForestClassifier(4, random_state=1), dict(leaf_bits=5), [4]),
             ('trees-regress', lambda: ExtraTreesRegressor(4, random_state=1), dict(dtype='float'), [2, 300]), ('trees-regress-small', lambda: ExtraTreesRegressor(4, random_state=1), dict(dtype='float'), [2]),
             ('bayes', lambda: GaussianNB(), {}, [1, 6, 260]),
             ('knn', lambda: KNeighborsClassifier(3), {}, [1, 4, 260]), ('mlp', lambda: MLPClassifier((6,), max_iter=3, random_state=1), {}, [2, 300]),
             ('mlp-inline', lambda: MLPClassifier((6,), max_iter=3, random_state=1), dict(method='inline'), [3, 270]),
             ('mlp-regress', lambda: MLPRegressor(hidden_layer_sizes=(6,), max_iter=3, random_state=1), dict(return_type='regressor'), [3, 270]), ('envelope', lambda: EllipticEnvelope(random_state=1), dict(method='inline'), [2, 20]),
             ('mixture', lambda: GaussianMixture(2, random_state=1), {}, [2, 9])]
    jobs = []
    for name, make, kw, feats in kinds:
        for nf in feats: jobs.append((name, make, kw, nf))
    prep = []
    for name, make, kw, nf in jobs:
        r = numpy.random.RandomState(c.seed + nf)
        rows = rng.choice([60, 90] if nf > 50 else [60, 120]); nc = rng.choice([2, 3, 4])
        X = r.randint(-120, 120, size=(rows, nf)).astype(float); y = r.randint(0, nc, size=rows); X[:, 0] += 60 * y
        if 'regress' in name: y = X[:, 0] * 3.0 + r.rand(rows) * 100
        if name == 'trees-regress-small': y = y * 1e-7
        with warnings.catch_warnings(), numpy.errstate(all='ignore'):
            warnings.simplefilter('ignore'); est = make().fit(X, y) if name not in ('envelope', 'mixture') else make().fit(X)
        prep.append((name, nf, est, kw, numpy.vstack([X, X[:3]])))
    def model(a):
        name, nf, est, kw, X = a; ev = []
        def evaluate(f, Z):
            with numpy.errstate(all='ignore'): return numpy.asarray(f(Z))
        def norm(v): return [float(t).hex() for t in numpy.ravel(v)]
        try: m = emlearn.convert(est, **kw)
        except Exception as ex: return dict(id='model-%s-%d' % (name, nf), ev=[dict(op='raised', why=repr(ex)[:300])])
        fs = ['predict']
        if name in ('tree', 'tree-loadable', 'forest', 'soft', 'mlp', 'mixture'): fs.append('predict_proba')
        if name in ('envelope', 'mixture'): fs.append('score_samples')
        if name == 'mixture': m.verbose = 0; fs.append('predict_log_proba')
        for f in fs:
            pick = list(range(0, len(X), max(1, len(X) // 8)))
            for rows in (list(range(len(X))), pick, pick[::-1], [3], [0, 0, 1]):
                if name == 'mixture' and len(rows) > 20: rows = rows[:20]
                e = dict(op='eval', via='%s-%s' % (name, f), n=len(rows), fits=True, raised=False)
                try:
                    res = evaluate(getattr(m, f), X[rows]); short = [k for k in range(len(rows)) if len(rows) <= 20 or k % 9 == 0]
                    alone = {k: evaluate(getattr(m, f), X[[rows[k]]]) for k in short}
                    e['res'] = [norm(v) for v in res]; e['want'] = [norm(alone[k][0]) if k in alone else norm(res[k]) if k < len(res) else [] for k in range(len(rows))]
                except Exception as ex: e.update(raised=True, why=repr(ex)[:300], res=[], want=[])
                ev.append(e)
            # rows of another width
            for Z in (X[:4, :-1] if nf > 1 else None, numpy.hstack([X[:4], X[:4, :1]]), numpy.hstack([X[:4]] * 3)):
                if Z is None: continue
                e = dict(op='eval', via='%s-%s-width' % (name, f), n=len(Z), fits=False, raised=False, cols=Z.shape[1])
                try: e['res'] = [norm(v) for v in evaluate(getattr(m, f), Z)]; e['want'] = e['res']
                except Exception as ex: e.update(raised=True, why=repr(ex)[:200], res=[], want=[])
                ev.append(e)
        return dict(id='model-%s-%d' % (name, nf), ev=ev)
    with ThreadPoolExecutor(vf.NCPU) as ex: sess += list(ex.map(model, prep))
    c.judge('HostTrace', sess)
vf.main('C29', check, assumptions=['rows of finite numbers'])
