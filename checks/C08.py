import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, nets, numpy, warnings, json
import session_worker as sw
CFG = 'INIT Init\nNEXT Next\nINVARIANTS Told Untouched Same %s\nCONSTANTS\n ROWS={1%s}\n STEPS=%d\n DEPTH=%d\n EMIT=%s\n EAGER=%s\nCHECK_DEADLOCK FALSE\n'
COMMON = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
%(code)s
#define NF %(nf)d
#define NO %(no)d
static const double rows[][NF] = { %(rows)s };
static unsigned char *vf_o[3]; static int vf_on[3]; static char part[64];
static int is(const char *s) { return !strcmp(part, s); }
static float *outbuf(int i, int n) { if (n < 0 || n > 4096) n = NO; vf_on[i] = n; vf_o[i] = malloc(4*(size_t)n + (n == 0)); memset(vf_o[i], 0xA5, 4*(size_t)n); return (float *)vf_o[i]; }
static int kept(void) { for (int i=0;i<3;i++) if (vf_o[i]) for (int j=0;j<4*vf_on[i];j++) if (vf_o[i][j] != 0xA5) return 0; return 1; }
%(state)s
int main(void) {
    static char line[1<<16]; setvbuf(stdout, NULL, _IOLBF, 1<<16);
    while (fgets(line, sizeof line, stdin)) {
        char fn[64]; int row, n, on; if (sscanf(line, "%%63s %%d %%d %%d %%63s", fn, &row, &n, &on, part) != 5) continue;
        for (int i=0;i<3;i++) vf_o[i] = 0;
        int have = n < 0 ? 0 : n > 4096 ? NF : n; %(dtype)s *in = malloc(sizeof(%(dtype)s)*(have ? have : 1));
        if (!have) { free(in); in = malloc(0); }
        for (int i=0;i<have;i++) in[i] = (%(dtype)s)(i < NF ? rows[row][i] : 1);
        if (is("nullin")) in = NULL;
        long ret = -99; double fret = 0; char res[8192]; res[0] = 0; int isf = 0, done = 0; long items = -1;
        %(calls)s
        if (!done) { printf("{\"op\":\"nofn\"}\n"); continue; }
        if (isf) { ret = isnan(fret) ? 1 : 0; snprintf(res, sizeof res, "%%a", fret); } else snprintf(res, sizeof res, "%%ld", ret);
        for (int i=0;i<3;i++) if (vf_o[i]) for (int j=0;j<vf_on[i];j++) { float f; memcpy(&f, vf_o[i]+4*j, 4); size_t k = strlen(res); if (k < 8000) snprintf(res+k, sizeof res-k, " %%a", f); }
        printf("{\"op\":\"call\",\"fn\":\"%%s\",\"row\":%%d,\"n\":%%d,\"on\":%%d,\"part\":\"%%s\",\"ret\":%%ld,\"kept\":%%s,\"res\":\"%%s\"", fn, row, n, on, part, ret, kept() ? "true" : "false", res);
        if (items >= 0) printf(",\"items\":%%ld", items);
        printf("}\n"); fflush(stdout);
        for (int i=0;i<3;i++) free(vf_o[i]);
    }
    return 0;
}
'''
def call(fn, expr, isf=False, pre='', after=''):
    return 'if (!strcmp(fn, "%s")) { done = 1; %s %s %s = %s; %s }\n' % (fn, 'isf = 1;' if isf else '', pre, 'fret' if isf else 'ret', expr, after)
OUT = 'float *o = outbuf(0, on); if (is("nullout")) o = NULL;'
def parts(names): return [p for p in names]
class Model:
    """one converted model, the functions that can be called on it and the parts that can be missing"""
    def __init__(self, label, code, nf, no, kind, rows, dtype='float', state='', calls='', fns=(), parts=(), cap=0, k=0, items=0, outs=None, genparts=('nullin',)):
        self.__dict__.update(locals())
    def source(self):
        return COMMON % dict(code=self.code, nf=self.nf, no=max(self.no, 1), rows=', '.join('{%s}' % ','.join(repr(float(v)) for v in r) for r in self.rows), state=self.state, dtype=self.dtype, calls='{' + self.calls + '}')
def trees(label, code, nf, no, kind, rows, loadable, dtype='int16_t'):
    st = ''; calls = ''; fns = []; pts = []
    gp = call('gen_predict', 'model_predict(in, n)') + call('gen_proba', 'model_predict_proba(in, n, o, on)', pre=OUT) if kind != 'regressor' else call('gen_regress', 'model_predict(in, n)', isf=True)
    fns = ['gen_predict', 'gen_proba'] if kind != 'regressor' else ['gen_regress']
    if loadable:
        st = 'static EmlTrees M; static EmlTrees *P;\nstatic void setup(void) { M = model; P = &M; if (is("nomodel")) P = NULL; if (is("nodes")) M.nodes = NULL; if (is("roots")) M.tree_roots = NULL; if (is("leaves")) M.leaves = NULL; if (is("notrees")) M.n_trees = 0; if (is("leafbits")) M.leaf_bits = 5; if (is("manyclasses")) M.n_classes = 31; }'
        calls = call('trees_predict', 'eml_trees_predict(P, in, n)', pre='setup();') + call('trees_proba', 'eml_trees_predict_proba(P, in, n, o, on)', pre='setup();' + OUT)
        calls += call('trees_regress', 'eml_trees_regress(P, in, n, o, on)', pre='setup();' + OUT) + call('trees_regress1', 'eml_trees_regress1(P, in, n)', isf=True, pre='setup();')
        pts = ['nomodel', 'nodes', 'roots', 'leaves', 'notrees', 'leafbits', 'manyclasses', 'nullin']; fns = ['trees_predict', 'trees_proba', 'trees_regress', 'trees_regress1'] + fns
    return Model(label, code, nf, no, kind, rows, dtype=dtype, state=st, calls=calls + gp, fns=fns, parts=pts, genparts=('nullin',) if loadable else ())
def net(label, m, nf, no, rows, nl, largest, classifier=True):
    code = m.save(name='model')
    st = '''static EmlNet M; static EmlNet *P; static EmlNetLayer L[%d];
static void setup(void) { M = model; P = &M; memcpy(L, model.layers, sizeof L); M.layers = L; if (is("nomodel")) P = NULL; if (is("nolayers")) M.layers = NULL; if (is("act1")) M.activations1 = NULL; if (is("act2")) M.activations2 = NULL;
 if (is("n0")) M.n_layers = 0; if (is("n1")) M.n_layers = 1; if (is("small")) M.activations_length = %d; if (is("zero")) M.activations_length = 0; if (is("negative")) M.activations_length = -5;
 for (int i=0;i<%d;i++) { char b[32]; sprintf(b, "weights%%d", i); if (is(b)) L[i].weights = NULL; sprintf(b, "biases%%d", i); if (is(b)) L[i].biases = NULL; sprintf(b, "function%%d", i); if (is(b)) L[i].activation = (EmlNetActivationFunction)99; } }''' % (nl, largest - 1, nl)
    S = 'setup();'
    calls = call('net_predict', 'eml_net_predict(P, in, n)', pre=S) + call('net_proba', 'eml_net_predict_proba(P, in, n, o, on)', pre=S + OUT) + call('net_regress', 'eml_net_regress(P, in, n, o, on)', pre=S + OUT) + call('net_regress1', 'eml_net_regress1(P, in, n)', isf=True, pre=S) + call('net_infer', 'eml_net_infer(P, in, n)', pre=S)
    calls += call('gen_predict', 'model_predict(in, n)')
    fns = ['net_predict', 'net_proba', 'net_regress', 'net_regress1', 'net_infer', 'gen_predict']
    if not classifier: fns.remove('net_proba')
    pts = ['nomodel', 'nolayers', 'act1', 'act2', 'n0', 'n1', 'small', 'zero', 'negative', 'nullin'] + ['%s%d' % (p, i) for p in ('weights', 'biases', 'function') for i in range(nl)]
    return Model(label, code, nf, no, 'classifier' if classifier else 'regressor', rows, state=st, calls=calls, fns=fns, parts=pts)
def net_inline(label, m, nf, no, rows, largest):
    pre = 'int len = is("small") ? %d : is("zero") ? 0 : is("negative") ? -5 : %d; float *a = malloc(sizeof(float)*(len > 0 ? len : 0)), *b = malloc(sizeof(float)*(len > 0 ? len : 0)); for (int i=0;i<len;i++) a[i] = b[i] = 5; if (is("act1")) a = NULL; if (is("act2")) b = NULL;' % (largest - 1, largest)
    calls = call('gen_predict', 'model_predict(in, n)') + call('inline_infer', 'model_infer(in, n, a, b, len)', pre=pre, after='if (ret == 0) { float *o = outbuf(0, %d); memcpy(o, b, 4*%d); }' % (no, no))
    return Model(label, m.save(name='model'), nf, no, 'classifier', rows, calls=calls, fns=['gen_predict', 'inline_infer'], parts=['nullin', 'act1', 'act2', 'small', 'zero', 'negative'])
def models(c):
    import emlearn
    rng = c.rng; out = []
    from sklearn.tree import DecisionTreeClassifier
    from sklearn.ensemble import RandomForestClassifier, ExtraTreesRegressor
    from sklearn.naive_bayes import GaussianNB
    from sklearn.neighbors import KNeighborsClassifier
    from sklearn.covariance import EllipticEnvelope
    from sklearn.mixture import GaussianMixture
    for rep in range(3 if c.thorough else 1):
        rs = numpy.random.RandomState(c.seed * 10 + rep)
        def data(nf, nc, n=60):
            X = rs.randint(-100, 100, size=(n, nf)).astype(float); y = rs.randint(0, nc, size=n); X[:, 0] += 80 * y; return X, y
        def rows(nf): return rs.randint(-100, 100, size=(4, nf)).astype(float)
        with warnings.catch_warnings(), numpy.errstate(all='ignore'), nets.no_compile():
            warnings.simplefilter('ignore')
            for nf in ([1, 4, 120] if not rep else [rng.randrange(1, 128)]):
                nc = rng.choice([2, 3, 7]); X, y = data(nf, nc); R = rows(nf)
                est = RandomForestClassifier(3, random_state=1).fit(X, y)
                for meth in ('loadable', 'inline'):
                    out.append(trees('forest-%s-%d' % (meth, nf), emlearn.convert(est, method=meth).save(name='model'), nf, nc, 'classifier', R, meth == 'loadable'))
                    out.append(trees('soft-%s-%d' % (meth, nf), emlearn.convert(est, method=meth, leaf_bits=8).save(name='model'), nf, nc, 'classifier', R, meth == 'loadable'))
                reg = ExtraTreesRegressor(3, random_state=1).fit(X, X[:, 0] * 1.5)
                for meth in ('loadable', 'inline'):
                    out.append(trees('regress-%s-%d' % (meth, nf), emlearn.convert(reg, method=meth).save(name='model'), nf, 1, 'regressor', R, meth == 'loadable'))
                out.append(trees('float-inline-%d' % nf, emlearn.convert(est, dtype='float').save(name='model'), nf, nc, 'classifier', R, False, dtype='float'))
            for sizes, cl in [([3, 5, 4], True), ([2, 3, 1], True), ([6, 2, 3, 5], True), ([3, 4, 1], False), ([2, 4, 3], False), ([1, 1, 1], False), ([9, 2, 2, 3, 2], False)]:
                nf = sizes[0]; R = rows(nf) / 50; nl = len(sizes) - 1; big = max(sizes)
                W = [rs.uniform(-1, 1, (a, b)) for a, b in zip(sizes, sizes[1:])]; B = [rs.uniform(-1, 1, b) for b in sizes[1:]]
                m = nets.mlp(sizes, rng.choice(['relu', 'tanh', 'logistic']), W, B, classifier=cl)
                kw = {} if cl else dict(return_type='regressor')
                try: out.append(net('net-%s' % '-'.join(map(str, sizes)), emlearn.convert(m, **kw), nf, sizes[-1], R, nl, big, cl))
                except Exception as ex:
                    if cl or sizes[-1] == 1: raise
                    # networks with several values to predict: through the classifier conversion they would be refused
                if cl: out.append(net_inline('netinline-%s' % '-'.join(map(str, sizes)), emlearn.convert(m, method='inline'), nf, sizes[-1], R, big))
            for nf, n, k in [(1, 3, 1), (3, 8, 3), (40, 9, 9)]:
                nc = 3; X, y = data(nf, nc, n); R = rows(nf)
                code = emlearn.convert(KNeighborsClassifier(k).fit(X, y)).save(name='model')
                cap = n + rng.choice([0, 2]); start = rng.choice([n, n, 0, k - 1])
                st = '''static EmlNeighborsModel K; static int16_t kd[%d], kl[%d], badl[%d]; static int ready;
static EmlNeighborsModel M, *P; static EmlNeighborsDistanceItem *D; static int dl;
static void setup(void) { if (!ready) { ready = 1; K = model; memcpy(kd, model.data, 2*%d); memcpy(kl, model.labels, 2*%d); K.data = kd; K.labels = kl; K.max_items = %d; K.n_items = %d; for (int i=0;i<%d;i++) badl[i] = 10; }
 M = K; P = &M; if (is("nomodel")) P = NULL; if (is("data")) M.data = NULL; if (is("labels")) M.labels = NULL; if (is("k0")) M.k_neighbors = 0; if (is("kneg")) M.k_neighbors = -1; if (is("kbig")) M.k_neighbors = K.n_items + 1; if (is("badlabel")) M.labels = badl;
 dl = is("smalldist") ? K.n_items - 1 : K.n_items; D = malloc(sizeof(*D) * (dl > 0 ? dl : 0)); if (is("nodist")) D = NULL; }''' % (nf * cap, cap, cap, nf * n, n, cap, start, cap)
                post = 'items = P ? P->n_items : K.n_items; if (P) K.n_items = P->n_items;'
                calls = call('knn_predict', 'eml_neighbors_predict(P, in, n, D, dl, o)', pre='setup(); int16_t *o = (int16_t *)outbuf(0, 1); if (is("nullout")) o = NULL;', after='items = K.n_items;')
                calls += call('knn_add', 'eml_neighbors_add_item(P, in, n, row %% %d)' % nc, pre='setup();', after=post + 'if (ret == 0) { } ')
                m = Model('knn-%d-%d-%d' % (nf, n, k), code, nf, 1, 'classifier', R, dtype='int16_t', state=st, calls=calls, fns=['knn_predict', 'knn_add'], parts=['nomodel', 'data', 'labels', 'nullin'], cap=cap, k=k, items=start)
                m.only = {'knn_predict': ['k0', 'kneg', 'kbig', 'badlabel', 'smalldist', 'nodist', 'nullout']}; out.append(m)
            for nf in (1, 3, 40):
                X, y = data(nf, 3, 160); R = rows(nf)
                m = emlearn.convert(EllipticEnvelope(random_state=1).fit(X), method='inline')
                st = 'static EmlEllipticEnvelope M, *P;\nstatic void setup(void) { M = model_classifier; P = &M; if (is("nomodel")) P = NULL; if (is("means")) M.means = NULL; if (is("precision")) M.precision = NULL; }'
                e = Model('envelope-%d' % nf, m.save(name='model'), nf, 1, 'classifier', R, state=st, calls=call('elliptic_predict', 'eml_elliptic_envelope_predict(P, in, n, o)', pre='setup(); float *o = outbuf(0, 1); if (is("nullout")) o = NULL;') + call('elliptic_gen', 'model_predict(in, n)', isf=True), fns=['elliptic_predict', 'elliptic_gen'], parts=['nomodel', 'means', 'precision', 'nullin'])
                out.append(e)
                for nc in (2, 10):
                    X, y = data(nf, nc, 80); X[:nc * 2, :] += rs.rand(nc * 2, nf); y[:2 * nc] = list(range(nc)) * 2
                    m = emlearn.convert(GaussianNB(var_smoothing=1e-3).fit(X, y))
                    st = 'static EmlBayesModel M, *P;\nstatic void setup(void) { M = model_model; P = &M; if (is("nomodel")) P = NULL; if (is("summaries")) M.summaries = NULL; if (is("c0")) M.n_classes = 0; if (is("c1")) M.n_classes = 1; if (is("c11")) M.n_classes = 11; }'
                    out.append(Model('bayes-%d-%d' % (nf, nc), m.save(name='model'), nf, nc, 'classifier', R, state=st, calls=call('bayes_predict', 'eml_bayes_predict(P, in, n)', pre='setup();') + call('gen_predict', 'model_predict(in, n)'), fns=['bayes_predict', 'gen_predict'], parts=['nomodel', 'summaries', 'c0', 'c1', 'c11', 'nullin']))
                X, y = data(nf, 3, 80); nk = rng.choice([1, 2, 4])
                m = emlearn.convert(GaussianMixture(nk, random_state=1, reg_covar=1).fit(X)); m.verbose = 0
                st = 'static EmlMixtureModel M, *P;\nstatic void setup(void) { M = model_model; P = &M; if (is("nomodel")) P = NULL; if (is("means")) M.means = NULL; if (is("precisions")) M.precisions = NULL; if (is("logdets")) M.log_dets = NULL; if (is("logweights")) M.log_weights = NULL; if (is("comp0")) M.n_components = 0; if (is("compneg")) M.n_components = -1; if (is("tied")) M.covariance_type = EmlCovarianceTied; if (is("diag")) M.covariance_type = EmlCovarianceDiagonal; if (is("spherical")) M.covariance_type = EmlCovarianceSpherical; }'
                S = 'setup(); float *o = outbuf(0, NO); float *s = outbuf(1, 1); float *r = outbuf(2, NO); if (is("nullout")) o = NULL; if (is("nullscore")) s = NULL; if (is("nullresp")) r = NULL;'
                g = Model('mixture-%d-%d' % (nf, nk), m.save(name='model'), nf, nk, 'classifier', R, state=st, calls=call('mixture_log', 'eml_mixture_predict_log_proba(P, in, n, o)', pre=S) + call('mixture_score', 'eml_mixture_score(P, in, n, o, s)', pre=S) + call('mixture_proba', 'eml_mixture_predict_proba(P, in, n, o, s, r)', pre=S),
                           fns=['mixture_log', 'mixture_score', 'mixture_proba'], parts=['nomodel', 'means', 'precisions', 'logdets', 'logweights', 'comp0', 'compneg', 'tied', 'diag', 'spherical', 'nullin', 'nullout'])
                g.only = {'mixture_score': ['nullscore'], 'mixture_proba': ['nullscore', 'nullresp']}
                out.append(g)
    return out
OUTS = {'trees_proba': 'exact', 'gen_proba': 'exact', 'net_proba': 'exact', 'net_regress': 'exact', 'trees_regress': 'any'}
def check(c):
    rng = c.rng; T = c.thorough
    c.design_check('Calls_MC', CFG % ('', ',2', 3, 4 if T else 3, 'FALSE', 'FALSE'), must=10000)
    beh = c.behaviours('Calls_MC', CFG % ('Emit', ',2', 2, 3, 'TRUE', 'FALSE'))
    c.notes['histories_in_spec'] = len(beh)
    ms = models(c); sess = []
    for m in ms:
        src = c.path('src', m.label + '.c'); open(src, 'w').write(m.source())
        m.bin = None
    from concurrent.futures import ThreadPoolExecutor
    def comp(m):
        try: return c.cc(os.path.join(c.scratch, 'src', m.label + '.c'), out=c.path('bin', m.label))
        except vf.Broken as ex: return ex
    with ThreadPoolExecutor(vf.NCPU) as ex: bins = list(ex.map(comp, ms))
    def good(m, fn): return (m.no if not (fn == 'net_proba' and m.no == 1) else 2) if OUTS.get(fn) == 'exact' else 1
    def usable(m, fn): return not ((fn in ('trees_predict', 'trees_proba') and m.kind == 'regressor') or (fn in ('trees_regress', 'trees_regress1') and m.kind != 'regressor') or (fn == 'net_regress1' and m.no != 1))
    def lens(m, fn, lib):
        w = [0, -1, m.nf - 1, m.nf + 1, 2 * m.nf, m.nf + 256, m.nf + 65536, m.nf + 2**24, -2**31 + m.nf, 2**31 - 1, -m.nf, -2**31 + m.nf]
        return sorted({x for x in w if x != m.nf and -2**31 < x})
    def wrongs(m, fn):
        """every way to call fn wrongly"""
        w = [('len', dict(n=n)) for n in lens(m, fn, True)]
        if fn in OUTS:
            g = good(m, fn); w += [('out', dict(on=o)) for o in sorted({0, -1, g - 1, g + 1, g + 256, g + 65536, -2**31 + g, 2**31 - 1} - {g}) if (o < 1 or OUTS[fn] == 'exact')]
        pts = (list(m.genparts) if fn in ('gen_predict', 'gen_proba', 'gen_regress', 'elliptic_gen') else list(m.parts)) + getattr(m, 'only', {}).get(fn, [])
        if fn in OUTS and m.parts and not (fn == 'gen_proba' and not m.genparts): pts.append('nullout')
        if fn == 'inline_infer': pts = m.parts
        if fn == 'knn_add': pts = ['nomodel', 'data', 'labels', 'nullin']
        if not m.parts: pts = []
        return w + [('part', dict(part=p)) for p in pts if not (p == 'manyclasses' and fn in ('trees_regress', 'trees_regress1'))]
    def line(m, fn, row=0, **kw):
        d = dict(n=m.nf, on=good(m, fn), part='none'); d.update(kw); return '%s %d %d %d %s' % (fn, row, d['n'], d['on'], d['part'])
    for m, b in zip(ms, bins):
        setup = dict(kind=m.kind, nf=m.nf, no=m.no, cap=m.cap, k=m.k, items=m.items)
        if isinstance(b, Exception): sess.append(dict(id=m.label, m=setup, ev=[dict(op='nocompile', why=str(b)[-600:])])); continue
        jobs = []
        ok = [f for f in m.fns if usable(m, f)]
        def goods(row): return [(line(m, f, row), True) for f in ok if f not in ('knn_add',)]
        # every wrong call, between correct ones
        for fn in m.fns:
            W = wrongs(m, fn); rng.shuffle(W)
            if not usable(m, fn): W.append(('kind', {}))
            for part in [W[i:i + 4] for i in range(0, len(W), 4)]:
                h = goods(0)
                for _, kw in part: h += [(line(m, fn, rng.randrange(4), **kw), False)]; h += goods(rng.randrange(4)) if rng.random() < .5 or m.nf < 20 else []
                jobs.append(h + goods(1))
        # histories of the specification
        for hist in rng.sample(beh, min(len(beh), 60 if T else 14)):
            h = []
            two = [rng.choice(m.fns), rng.choice(m.fns)]
            for o in hist:
                fn = two[0] if o['fn'] == 'net_proba' else two[1]; W = [x for x in wrongs(m, fn) if x[0] == o['k']] if o['k'] != 'good' else []
                if o['k'] != 'good' and not W: continue
                h.append((line(m, fn, o['row'], **(rng.choice(W)[1] if W else {})), not W and usable(m, fn)))
            jobs.append(h + goods(1))
        # long ones
        for _ in range(8 if T else 2):
            h = []
            for _ in range(40):
                fn = rng.choice(m.fns)
                if rng.random() < .5 and usable(m, fn): h.append((line(m, fn, rng.randrange(4)), True))
                else: h.append((line(m, fn, rng.randrange(4), **rng.choice(wrongs(m, fn))[1]), False))
            jobs.append(h + goods(2))
        # the same histories without the wrong calls (a full or empty model refuses on its own: the specification tells)
        A = c.run_sessions(b, [dict(cmds=[x for x, _ in h]) for h in jobs]); C = c.run_sessions(b, [dict(cmds=[x for x, g in h if g]) for h in jobs])
        for k, (h, a, cl) in enumerate(zip(jobs, A, C)):
            it = iter(cl)
            for (x, g), e in zip(h, a):
                if g and e.get('op') == 'call':
                    r = next(it, None)
                    if r is not None and r.get('op') == 'call': e['clean'] = r['res']
            sess.append(dict(id='%s-%d' % (m.label, k), m=setup, ev=a))
    c.notes['models'] = len(ms); c.notes['wrong_calls'] = sum(1 for s in sess for e in s['ev'] if e.get('op') == 'call' and 'clean' not in e)
    c.judge('CallsTrace', sess)
vf.main('C08', check, assumptions=['the caller\'s buffers have at least the length that is told, up to 4096'])
