import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, numpy, cmodels, nets
Q = 4096
def check(c):
    rng = c.rng
    import emlearn
    from sklearn.mixture import GaussianMixture, BayesianGaussianMixture
    cfg = 'INIT Init\nNEXT Next\nINVARIANTS %s\nCONSTANTS\n CVALS={0,1,3%s}\n DVALS={0,1,2,5}\n LPS={0,1,100,2839,4096,12000,40000,65000,100000%s}\n PART=%d\nCHECK_DEADLOCK FALSE\n'
    c.design_check('Mixture_MC', cfg % ('Forms Lns', ',2' if c.thorough else '', '', 1), must=4000)
    c.design_check('Mixture_MC', cfg % ('Logs Resp', '', ',7,50,1000,20000' if c.thorough else '', 2), must=7000)
    def gm(type, P, means, weights, bayes=False):
        k, f = len(means), len(means[0]); r = numpy.random.RandomState(0)
        with numpy.errstate(all='ignore'):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                cls = BayesianGaussianMixture if bayes else GaussianMixture
                kw = {}
                if bayes and rng.random() < .5: kw['weight_concentration_prior_type'] = 'dirichlet_distribution'
                m = cls(n_components=k, covariance_type=type, max_iter=1, init_params='random', random_state=0, **kw).fit(r.normal(size=(max(2 * k, f + 3), f)))
        m.means_ = numpy.array(means, dtype=float); m.precisions_cholesky_ = numpy.array(P, dtype=float)
        if not bayes: m.weights_ = numpy.array(weights, dtype=float) / sum(weights)
        return m
    types = ['full', 'tied', 'diag', 'spherical']
    cases = []
    for i in range(200 if c.thorough else 60):
        t = types[i % 4]; k = rng.choice([1, 2, 2, 3, 3, 5, 8]); f = rng.choice([1, 2, 2, 3, 4, 6]); cases.append((t, k, f, i % 12 >= 8, i))
    cases += [('diag', 40, 2, False, 'many'), ('spherical', 130, 1, False, 'many'), ('full', 2, 20, False, 'wide'), ('tied', 2, 40, False, 'wide'), ('diag', 2, 130, False, 'wide'), ('spherical', 260, 2, False, 'many'), ('full', 9, 64, False, 'wide')]
    cases += [(t, k, 2, False, 'alike') for t, k in zip(types, (4, 6, 9, 20))] + [('full', 3, 2, False, 'alike'), ('full', 2, 2, False, 'alike'), ('spherical', 2, 3, False, 'alike'), ('diag', 2, 3, True, 'alike')]
    sess = []; models = []; jobs = []; meta = []; live = []
    for t, k, f, bayes, i in cases:
        dv = [1, 1, 2, 3, 5] if f < 10 else [1, 1, 2]
        def tri():
            M = [[0] * f for _ in range(f)]
            for a in range(f):
                M[a][a] = rng.choice(dv)
                for b in range(a + 1, f): M[a][b] = rng.choice([0, 1, -1, 2, -3]) if f < 10 else rng.choice([0, 0, 0, 0, 1, -1])
            return M
        P = {'full': lambda: [tri() for _ in range(k)], 'tied': tri, 'diag': lambda: [[rng.choice(dv) for _ in range(f)] for _ in range(k)], 'spherical': lambda: [rng.choice(dv) for _ in range(k)]}[t]()
        sp = rng.choice([1, 4, 20]) if f < 10 else 2
        means = [[rng.randrange(-sp, sp + 1) for _ in range(f)] for _ in range(k)]
        if i != 'wide' and k > 1 and rng.random() < .2: means[1] = list(means[0])
        if i == 'alike':      # all components answer nearly the same
            means = [[v + (rng.choice([0, 0, 0, 1]) * (j % 2) if k > 2 else 0) for v in means[0]] for j in range(k)]
            P = {'full': [P[0]] * k, 'tied': P, 'diag': [P[0]] * k, 'spherical': [P[0]] * k}[t]
        weights = [rng.choice([1, 1, 2, 5, 20, 300]) for _ in range(k)] if i != 'alike' else [200, 204] if k == 2 else [rng.choice([200, 200, 201, 203]) for _ in range(k)]
        xs = [list(rng.choice(means))]
        for _ in range(40):
            if len(xs) >= (3 if i == 'wide' or k > 100 else 8): break
            b = rng.choice(means); w = rng.choice([1, 2, 6]) if f < 10 else 1
            x = [v + rng.randrange(-w, w + 1) for v in b]
            if rng.random() < .1: x = [v * 30 for v in x]
            if k > 1 and rng.random() < .3: b2 = rng.choice(means); x = [(u + v) // 2 for u, v in zip(b, b2)]
            C = [[[P[c_][p][q] if t == 'full' else P[p][q] if t == 'tied' else (P[c_][p] if t == 'diag' else P[c_]) if p == q else 0 for q in range(f)] for p in range(f)] for c_ in range(k)]
            D = [float((((numpy.array(x) - numpy.array(means[c_])) @ numpy.array(C[c_])) ** 2).sum()) for c_ in range(k)]
            if max(D) < 200000: xs.append(x)
        sh = rng.choice([0, 0, -9, -4, 3, 8]) if f < 10 else 0; sc = 2.0 ** sh
        m = gm(t, numpy.array(P) / sc, numpy.array(means) * sc, weights, bayes)
        offs = []
        if bayes:     # what the source adds per component, measured where the distance is zero
            with numpy.errstate(all='ignore'):
                for c_ in range(k): offs.append(vf.micro(float(m._estimate_weighted_log_prob(numpy.array([means[c_]], dtype=float) * sc)[0][c_]) + f * 0.9189385332046727, Q))
        S = dict(id='%s%s-%s-%dx%d' % ('bayesian-' if bayes else '', t, i, k, f), type=t, P=P, means=means, weights=weights, bayesian=bayes, offs=offs, shift=sh, ev=[]); sess.append(S)
        try: w = emlearn.convert(m); code = w.save(name='gmm')
        except Exception as ex: S['ev'].append(dict(op='raised', why=repr(ex)[:300])); continue
        arr = 'printf(",\\"%%s\\":[", "%s"); for (int i=0;i<%d;i++) printf("%%s\\"%%a\\"", i?",":"", (double)o[i]); printf("]");'
        body = ('float *f = malloc(sizeof(float)*n); for (int i=0;i<n;i++) f[i]=(float)x[i];\nfloat *o = malloc(sizeof(float)*%d), *p = malloc(sizeof(float)*%d); float s = NAN, s2 = NAN;\n' % (k, k) +
                'printf("\\"r0\\":%d", (int)gmm_predict_log_proba(f, n, o));' + arr % ('l0', k) + 'for (int i=0;i<%d;i++) o[i] = NAN;' % k +
                'printf(",\\"r1\\":%d", (int)gmm_score(f, n, o, &s));' + arr % ('l1', k) + 'printf(",\\"s1\\":\\"%a\\"", (double)s);' + 'for (int i=0;i<%d;i++) o[i] = NAN;' % k +
                'printf(",\\"r2\\":%d", (int)gmm_predict_proba(f, n, o, &s2, p));' + arr % ('l2', k) + 'printf(",\\"s2\\":\\"%a\\"", (double)s2);' + arr.replace('o[i]', 'p[i]') % ('p', k) + 'free(o); free(p); free(f);')
        body = body.replace('for (int i=0;i<%d;i++) o[i] = NAN;', 'for (int i=0;i<%d;i++) o[i] = NAN;' % k)
        models.append(dict(id=S['id'], code=code, body=body))
        for x in xs: jobs.append((S['id'], [v * sc for v in x])); meta.append((S, x))
        live.append((S, m, w, xs, sc))
    run = cmodels.build(c, models)
    mi = lambda v: vf.NAN if 'n' in v else vf.micro(v, Q)
    for (S, x), r in zip(meta, run(jobs)):
        if 'nocompile' in r or 'crash' in r: S['ev'].append(dict(op='nocompile' if 'nocompile' in r else 'crash', why=str(r)[-300:])); continue
        S['ev'].append(dict(op='mixture', via='log-proba', x=x, ret=r['r0'], lp=[mi(v) for v in r['l0']]))
        S['ev'].append(dict(op='mixture', via='score', x=x, ret=r['r1'], lp=[mi(v) for v in r['l1']], score=mi(r['s1'])))
        S['ev'].append(dict(op='mixture', via='proba', x=x, ret=r['r2'], lp=[mi(v) for v in r['l2']], score=mi(r['s2']), resp=[mi(v) for v in r['p']]))
    byt = {}
    for v in live: byt.setdefault((v[0]['type'], v[0]['bayesian']), []).append(v)
    for g in byt.values():
        for S, m, w, xs, sc in rng.sample(g, min(len(g), 8 if c.thorough else 2)) + [v for v in g if '-alike-' in v[0]['id']]:
            X = numpy.array(xs, dtype=float) * sc
            try:
                lp, pr, sc, cl = w.predict_log_proba(X), w.predict_proba(X), w.score_samples(X), w.predict(X)
                if not len(lp) == len(pr) == len(sc) == len(cl) == len(xs): S['ev'].append(dict(op='rows'))
                for j, x in enumerate(xs): S['ev'].append(dict(op='mixture', via='wrapper', x=x, ret=0, lp=[vf.micro(v, Q) for v in lp[j]], score=vf.micro(sc[j], Q), resp=[vf.micro(v, Q) for v in pr[j]], cls=int(cl[j])))
            except Exception as ex: S['ev'].append(dict(op='raised', why='wrapper ' + repr(ex)[:300]))
            with numpy.errstate(all='ignore'):
                lp, pr, sc, cl = m._estimate_weighted_log_prob(X), m.predict_proba(X), m.score_samples(X), m.predict(X)
            for j, x in enumerate(xs): S['ev'].append(dict(op='mixture', via='source', x=x, ret=0, lp=[vf.micro(v, Q) for v in lp[j]], score=vf.micro(sc[j], Q), resp=[vf.micro(v, Q) for v in pr[j]], cls=int(cl[j])))
    c.judge('GaussTrace', sess)
vf.main('C11', check, assumptions=['means, precision factors and inputs are integers; logarithms and responsibilities to about 0.005', 'the per-component constant of Bayesian mixtures is measured from the source estimator'])
