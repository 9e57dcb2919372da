"""Driver shared by C01, C02, C03: builds source ensembles, converts them with the code of the
current tree, runs every inference path, and records sessions for ForestTrace.tla."""
import os, sys, math, warnings, numpy
from fractions import Fraction
import vf, treegen as tg, cmodels

FR = tg.FR
PRE = r'''
static void vf_farr(const char *name, const float *p, int n) {
    printf("\"%s\":[", name);
    for (int i=0;i<n;i++) printf("%s\"%a\"", i?",":"", (double)p[i]);
    printf("]");
}
'''

def th_value(rng, kind, span=20):
    r = rng.random()
    w = rng.randrange(-span, span + 1)
    if kind == 'unsigned': w = abs(w)
    if r < 0.35: return w + 0.5
    if r < 0.65: return float(w)
    if r < 0.8: return w + rng.choice([0.25, 0.75, 0.125])
    if r < 0.9: return w + rng.randrange(1, 1024) / 1024.0
    return float(numpy.float64(w) + rng.randrange(1, 2**20) / 2.0**20)

EDGE = {'int8_t': [127, 126.5, -128, -127.5, 100, -100], 'int16_t': [32766.5, 32766, -32768, -32767.5, 12345.5, -20000.25, 300.5],
        'int32_t': [2147483646.5, -2147483648.0, 16777215.5, -16777216.0, 100000.5, 65535.5], 'uint8_t': [254.5, 254, 0, 0.5, 200.5], 'uint16_t': [65534.5, 65534, 0, 0.5, 40000.5],
        'float': [0.1, 1e-3, 3.3333333333, 1048576.25, -99999.0625]}

def threshold_source(rng, dtype):
    kind = 'unsigned' if dtype.startswith('u') else 'signed'
    def th():
        if rng.random() < 0.15:
            v = float(rng.choice(EDGE[dtype]))
        else: v = th_value(rng, kind)
        return float(Fraction(round(Fraction(v) * 2**24), 2**24)) if dtype == 'float' else v
    return th

def fitted(rng, kind, classifier, nf, nc, depth, integer=True, **kw):
    """a genuinely trained estimator on small grid data"""
    import sklearn.tree, sklearn.ensemble
    r = numpy.random.RandomState(rng.randrange(2**31))
    n = 120
    X = r.randint(-30, 31, size=(n, nf)).astype(float) if integer else r.randint(-4096, 4097, size=(n, nf)) / 1024.0
    if classifier:
        y = (X[:, 0] > r.randint(-5, 6)).astype(int) + r.randint(0, max(1, nc - 1), size=n)
        y = numpy.concatenate([y[nc:], numpy.arange(nc)])
        cls = {'dt': sklearn.tree.DecisionTreeClassifier, 'rf': sklearn.ensemble.RandomForestClassifier, 'et': sklearn.ensemble.ExtraTreesClassifier}[kind]
    else:
        y = numpy.round(X[:, 0] * 2 + r.randint(-8, 9, size=n)) / 8.0
        cls = {'dt': sklearn.tree.DecisionTreeRegressor, 'rf': sklearn.ensemble.RandomForestRegressor, 'et': sklearn.ensemble.ExtraTreesRegressor}[kind]
    args = dict(max_depth=depth, random_state=r.randint(10000)); args.update(kw)
    if kind != 'dt': args.setdefault('n_estimators', rng.choice([2, 3, 5]))
    return cls(**args).fit(X, y)

def representable(est, maxwhole=2**31 - 1):
    for f, t in tg.thresholds(est):
        fr = Fraction(t)
        if (fr * FR).denominator != 1 or abs(fr) > maxwhole: return False
    return True

def _convert(repo, est, name, kw):
    sys.path.insert(0, repo); sys.setrecursionlimit(20000)
    import emlearn, numpy
    # numpy.array_equal on numbers, an order of magnitude faster (the conversion compares all pairs of leaves)
    slow = numpy.array_equal; number = (float, int, numpy.generic)
    def equal(a, b, *rest, **kw):
        return a == b if isinstance(a, number) and isinstance(b, number) else slow(a, b, *rest, **kw)
    numpy.array_equal = equal
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore'); return emlearn.convert(est, **kw).save(name=name), None
    except Exception as ex: return None, repr(ex)[:200]

class Trees:
    def __init__(self, c, kind):
        self.c = c; self.kind = kind
        sys.path.insert(0, vf.REPO)
        import emlearn; self.emlearn = emlearn
        self.sessions = []; self.models = []; self.jobs = []

    def body(self, name, dtype, nf, nc, method):
        b = '%s *f = malloc(sizeof(%s)*n); for (int i=0;i<n;i++) f[i]=(%s)x[i];\n' % (dtype, dtype, dtype)
        if self.kind == 'reg':
            b += 'float y = %s_predict(f, n); vf_farr("y", &y, 1);' % name
            if method == 'loadable':
                b += 'float o = -1; int e = (int)eml_trees_regress(&%s, f, n, &o, 1); printf(",\\"err\\":%%d,", e); vf_farr("y2", &o, 1);' % name
        else:
            b += 'int c = (int)%s_predict(f, n); float *o = malloc(sizeof(float)*%d); for (int i=0;i<%d;i++) o[i]=-7;\n' % (name, nc, nc)
            b += 'int e = (int)%s_predict_proba(f, n, o, %d); printf("\\"cls\\":%%d,\\"err\\":%%d,", c, e); vf_farr("p", o, %d); free(o);' % (name, nc, nc)
        return b + ' free(f);'

    def add(self, est, nf, nc, dtypes, bits=0, queries=12, wrapper=False, label='', shift=0, csv=True, methods=('inline', 'loadable'), background=False):
        """one session: an estimator, converted in every way offered for it.
        background: the conversion takes long, and runs next to the others (no CSV, no wrapper)
        shift: numbers are multiplied by 2**shift before projection (tiny or huge scales)"""
        c = self.c; rng = c.rng; k = len(self.sessions)
        nt = len(tg.members(est))
        mul = Fraction(2) ** shift
        one = 0; vs = 0
        if self.kind == 'hard': values = tg.ranks
        elif self.kind == 'soft':
            one = getattr(est, 'vf_one', 60)
            def values(v):
                out = [round(float(p) * one) for p in v]
                assert all(abs(o - float(p) * one) < 1e-6 for o, p in zip(out, v)), v
                return out
        else:
            vs = est.vf_vs
            def values(v): return [round(Fraction(float(v[0])) * vs)]
        def px(v): return tg.pair(Fraction(float(v)) * mul)
        forest = []
        for t in tg.project(est, values, mul): forest.append(t)
        s = dict(id='%s%d-%s' % (self.kind, k, label), kind=self.kind, forest=forest, nc=nc, nf=nf, nt=nt, bits=bits, one=one, vs=0, ev=[])
        if self.kind == 'reg':
            vmax = max(abs(t['v'][0]) for f in forest for t in f if t['leaf'])
            s['tol'] = 2 + (0 if all((Fraction(float(v)) * vs).denominator == 1 for e in tg.members(est) for v in e.tree_.value[:, 0, 0]) else 9) + -(-vmax * 16 * (1 + nt) // 2**24)
        # the source library itself
        allq = {}
        for dt in dtypes:
            qs = [q for q in tg.queries(rng, est, nf, dt, queries, mul)]
            allq[dt] = qs
        surv = [q for qs in allq.values() for q in qs if all(tg.f32(v) == v for v in q)][:10]
        if surv:
            X = numpy.array(surv, dtype=numpy.float32)
            leafs = numpy.stack([e.tree_.apply(X) for e in tg.members(est)], axis=1)
            for q, lf in zip(surv, leafs):
                s['ev'].append(dict(op='source', x=[px(v) for v in q], leaf=[int(a) + 1 for a in lf]))
        conv = []
        for dt in dtypes:
            for method in methods:
                if method == 'loadable' and (dt != 'int16_t' or nf > 127 or nc > 30): continue
                via = '%s/%s' % (method, dt); name = 'm%d_%s_%s' % (k, method, dt)
                if background:
                    import concurrent.futures as cf, multiprocessing
                    if not hasattr(self, 'pool'): self.pool = cf.ProcessPoolExecutor(2, mp_context=multiprocessing.get_context('fork'))
                    fut = self.pool.submit(_convert, vf.REPO, est, name, dict(method=method, dtype=dt, **({'leaf_bits': bits} if self.kind == 'soft' else {})))
                    self.models.append(dict(id=name, code=fut, body=self.body(name, dt, nf, nc, method), s=s, via=via))
                    conv.append((via, name, dt, None)); continue
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        w = self.emlearn.convert(est, method=method, dtype=dt, **({'leaf_bits': bits} if self.kind == 'soft' else {}))
                        code = w.save(name=name)
                except Exception as ex:
                    s['ev'].append(dict(op='refused', via=via, why=repr(ex)[:200])); continue
                self.models.append(dict(id=name, code=code, body=self.body(name, dt, nf, nc, method)))
                conv.append((via, name, dt, w))
        s['_conv'] = conv; s['_vs'] = vs; s['_q'] = allq; s['_px'] = px
        if csv and not background and conv and self.kind != 'soft': self.csv(s, conv[0][3], est, allq[conv[0][2]], px, values, mul)
        if wrapper:
            for via, name, dt, w in conv: self.wrap(s, via, dt, w, allq[dt], px)
        self.sessions.append(s)
        return s

    def wrap(self, s, via, dt, w, qs, px):
        qs = qs[:8]
        # rows go through a text pipe with 8 decimals and float32: only values that survive it
        qs = [q for q in qs if all(float('%.8f' % v) == v and abs(v) < 2**24 for v in q)]
        if not qs: return
        X = numpy.array(qs, dtype=float)
        try:
            if self.kind == 'reg':
                y = w.predict(X); res = [dict(via='wrapper:' + via, y=self.yscale(s, float(a))) for a in y]
            else:
                y = w.predict(X); P = numpy.asarray(w.predict_proba(X), dtype=float).reshape(len(qs), -1)
                res = [dict(via='wrapper:' + via, cls=int(a), p=[vf.micro(v, self.pscale()) for v in P[i]]) for i, a in enumerate(y)]
            if len(res) != len(qs): raise ValueError('got %d predictions for %d rows' % (len(res), len(qs)))
        except Exception as ex:
            s['ev'].append(dict(op='refused', via='wrapper:' + via, why=repr(ex)[:200])); return
        for q, r in zip(qs, res): s['ev'].append(dict(op='predict', x=[px(v) for v in q], res=[r]))

    def pscale(self): return 1000000 if self.kind == 'hard' else 100000
    def yscale(self, s, y): return vf.micro(float(Fraction(y) * s['_vs'] * 16) if y == y and abs(y) != math.inf else math.nan, 1)

    def csv(self, s, w, est, qs, px, values, mul):
        try: text = w.save(name='csvmodel', format='csv')
        except Exception as ex:
            s['ev'].append(dict(op='refused', via='csv', why=repr(ex)[:200])); return
        nodes = []; roots = []; leaves = []; hdr = {}
        try:
            for line in text.split('\n'):
                t = line.strip().split(',')
                if t[0] == 'n': nodes.append((int(t[1]), float(t[2]), int(t[3]), int(t[4])))
                elif t[0] == 'r': roots.append(int(t[1]))
                elif t[0] == 'l': leaves.append(float(t[1]))
                elif t[0]: hdr[t[0]] = int(t[1])
        except ValueError as ex:
            s['ev'].append(dict(op='refused', via='csv', why='unreadable: ' + repr(ex)[:100])); return
        ths = {}
        for f, t in tg.thresholds(est): ths.setdefault(f, []).append(t)
        def ok(q): return all(round(t, 6) == t or abs(v - t) > 2e-6 for f, v in enumerate(q) for t in ths.get(f, []))
        def apx(v):
            f = Fraction(v) * mul; wh = math.floor(f); return [int(wh), int(math.floor((f - wh) * FR))]
        lv = [[int(v)] if self.kind == 'hard' else [round(Fraction(v) * s['_vs'])] for v in leaves]
        s['ev'].append(dict(op='csv', nodes=[dict(f=f, th=apx(t), l=a, r=b) for f, t, a, b in nodes], roots=roots, leaves=lv,
                            nf=hdr.get('f', -1), nc=hdr.get('c', -1), lb=hdr.get('lb', -1), xs=[[px(v) for v in q] for q in qs if ok(q)]))

    def run(self):
        c = self.c
        # helper once per compiled group: prepend a guarded copy to each model
        for m in [m for m in self.models if not isinstance(m['code'], str)]:
            m['code'], why = m['code'].result(); s = m.pop('s'); via = m.pop('via')
            if why is not None:
                s['ev'].append(dict(op='refused', via=via, why=why)); s['_conv'] = [t for t in s['_conv'] if t[0] != via]; self.models.remove(m)
        if hasattr(self, 'pool'): self.pool.shutdown()
        guard = '#ifndef VF_PRE\n#define VF_PRE\n' + PRE + '\n#endif\n'
        for m in self.models: m['code'] = guard + m['code']
        run = cmodels.build(c, self.models)
        jobs = []; where = []
        for s in self.sessions:
            for via, name, dt, w in s['_conv']:
                for qi, q in enumerate(s['_q'][dt]): jobs.append((name, q)); where.append((s, via, dt, qi))
        res = run(jobs)
        ev = {}
        for (s, via, dt, qi), r in zip(where, res):
            if 'nocompile' in r: o = dict(via=via, crash='does not compile: ' + str(r['nocompile'])[-200:])
            elif 'crash' in r: o = dict(via=via, crash=r['crash'])
            elif self.kind == 'reg':
                o = dict(via=via, y=self.yscale2(s, r['y'][0]))
                if 'y2' in r: ev.setdefault((s['id'], dt, qi), []).append(dict(via=via + '/regress', y=self.yscale2(s, r['y2'][0]) if r['err'] == 0 else vf.NAN))
            else: o = dict(via=via, cls=r['cls'], err=r['err'], p=[vf.micro(v, self.pscale()) for v in r['p']])
            ev.setdefault((s['id'], dt, qi), []).append(o)
        for s in self.sessions:
            for dt, qs in s['_q'].items():
                for qi, q in enumerate(qs):
                    if (s['id'], dt, qi) in ev:
                        s['ev'].append(dict(op='predict', x=[s['_px'](v) for v in q], res=ev[(s['id'], dt, qi)]))
        for s in self.sessions:
            for k in [k for k in s if k.startswith('_')]: del s[k]
        bad = c.judge('ForestTrace', self.sessions)
        if any('SPEC-' in b[2] for b in bad):
            raise vf.Broken('the specification disagrees with the source library: %r' % (bad[0],))

    def yscale2(self, s, h):
        y = float.fromhex(h) if h not in ('nan', '-nan', 'inf', '-inf') else float(h.replace('-nan', 'nan'))
        return self.yscale(s, y)
