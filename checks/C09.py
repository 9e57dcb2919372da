import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, numpy, cmodels, nets
ONE = 65536
def q(v): return int(float(v) * ONE)         # truncated toward zero, as the macro of the library does
def check(c):
    rng = c.rng
    import emlearn
    from sklearn.naive_bayes import GaussianNB
    c.design_check('Bayes_MC', 'INIT Init\nNEXT Next\nINVARIANTS Within Logs Ratios Priors\nCONSTANTS\n DEVS={1,2,3,5,17,100,255,256,257,1000,4095,65535,65536,65537,100000,1000000,3000001}\n STEPS=%d\n STDS=%d\nCHECK_DEADLOCK FALSE\n' % ((7, 180) if c.thorough else (1, 120)), must=3000)
    def nb(theta, std, prior=None):
        theta = numpy.array(theta, dtype=float); k, f = theta.shape
        with numpy.errstate(all='ignore'): m = GaussianNB().fit(numpy.arange(2.0 * k * f).reshape(2 * k, f), list(range(k)) * 2)
        if prior is not None: m.class_prior_ = numpy.array(prior, dtype=float) / sum(prior)
        m.theta_ = theta; m.var_ = numpy.array(std, dtype=float) ** 2
        return m
    specs = []
    f32 = lambda v: float(numpy.float32(v))
    def inputs(theta, std, n, wild=True):
        k, f = theta.shape; out = []
        for _ in range(n):
            w = rng.random(); a = rng.randrange(k); b = rng.randrange(k)
            if w < .3: x = [theta[a][i] + std[a][i] * rng.gauss(0, 1) for i in range(f)]
            elif w < .5: t = rng.random(); x = [theta[a][i] * t + theta[b][i] * (1 - t) + std[a][i] * rng.gauss(0, .3) for i in range(f)]
            elif w < .6: x = list(theta[a])
            elif w < .8 or not wild: x = [theta[a][i] + std[a][i] * rng.uniform(-1, 1) * rng.choice([3, 20, 100, 400]) for i in range(f)]
            elif w < .95:       # one feature far away
                x = [theta[a][i] + std[a][i] * rng.gauss(0, 1) for i in range(f)]; i = rng.randrange(f); x[i] = rng.choice([-32000, 32000, -32767, 32767, 10000, 500, -200])
            else: x = [rng.choice([-32767, 32767, 0, 181, 20000]) for _ in range(f)]
            out.append([max(-32767.0, min(32767.0, f32(v))) for v in x])
        return out
    R = 5 if c.thorough else 1
    for i in range(45 * R):
        k = rng.choice([2, 2, 2, 3, 4, 5, 10]); f = rng.choice([1, 1, 2, 3, 5, 10]); kind = i % 9
        sp = rng.choice([.5, 2, 10, 100])
        theta = numpy.array([[rng.uniform(-sp, sp) for _ in range(f)] for _ in range(k)]); std = numpy.array([[rng.choice([.05, .5, 1, 2, 7, 40]) * rng.uniform(.5, 1.5) for _ in range(f)] for _ in range(k)])
        if kind == 1: std[:] = rng.choice([.01, 1, 3]) # only the means differ
        elif kind == 2: theta[:] = theta[0]            # only the deviations differ
        elif kind == 3 and k > 2: theta[1] = theta[0]; std[1] = std[0]; theta[-1] = theta[0]; std[-1] = std[0]        # exact ties
        elif kind == 4: theta = theta * 300; theta = numpy.clip(theta, -32000, 32000); std = numpy.minimum(std * 200, 20000)
        elif kind == 5: std = std / 200
        elif kind == 6: std[:, rng.randrange(f)] = rng.choice([1 / ONE, 3 / ONE, 20 / ONE])
        elif kind == 7: theta = numpy.round(theta); std = numpy.array([[2.0 ** rng.randrange(-6, 6) for _ in range(f)] for _ in range(k)])
        prior = None if i % 2 else [rng.choice([1, 1, 2, 10, 100, 3000]) * rng.uniform(.5, 1) for _ in range(k)] if kind != 3 else [rng.choice([1, 5])] * k if rng.random() < .5 else [1, 1] + [3] * (k - 2)
        specs.append(('grid-%d' % i, nb(theta, std, prior), theta, std, inputs(theta, std, 14 if not c.thorough else 30)))
    th = numpy.array([[30000.0, -30000], [-30000, 30000]]); specs.append(('far-apart', nb(th, [[1, 1], [1, 1]]), th, numpy.ones((2, 2)), [[30000, -30000], [-30000, 30000], [29990, -29990], [-32000, 31000], [100, -200], [-100, 50]]))
    for f in (50, 130, 300):   # long sums
        th = numpy.array([[rng.uniform(-2, 2) for _ in range(f)] for _ in range(3)]); sd = numpy.array([[rng.uniform(.1, .5) for _ in range(f)] for _ in range(3)])
        specs.append(('long-%d' % f, nb(th, sd), th, sd, inputs(th, sd, 6) + [[f32(v + 30) for v in th[2]], [f32(v * 8) for v in th[1]]]))
    k, f = 10, 3290            # more parameters than a small integer can count
    th = numpy.array([[rng.choice([-1.0, 0.0, 1.0]) for _ in range(f)] for _ in range(k)]); specs.append(('large', nb(th, numpy.ones((k, f))), th, numpy.ones((k, f)), [[f32(v) for v in th[9]]]))
    for i in range(6 * R):     # fitted
        k = rng.choice([2, 3, 6]); f = rng.choice([2, 4, 8]); n = 60; r = numpy.random.RandomState(rng.randrange(2**31))
        y = numpy.arange(n) % k; X = r.normal(size=(n, f)) + y[:, None] * rng.choice([.3, 1, 3]); X[:, 0] *= rng.choice([1, 50, 1000])
        if i % 3 == 2: X[:, -1] = r.randint(0, 2, n)
        if i % 3 == 1: sel = r.rand(n) < numpy.where(y == 0, 1, .4); X, y = X[sel], y[sel]
        with numpy.errstate(all='ignore'): m = GaussianNB().fit(X, y)
        specs.append(('fit-%d' % i, m, m.theta_, numpy.sqrt(m.var_), [[f32(v) for v in x] for x in X[:10]] + inputs(m.theta_, numpy.sqrt(m.var_), 6)))
    # outside of the format
    for i, (t, s) in enumerate([([[0.], [40000.]], [[1.], [1.]]), ([[0.], [1.]], [[1.], [40000.]]), ([[0.], [-33000.]], [[1.], [1.]]), ([[0., 1.], [1., 2.]], [[1., 1e-6], [1., 1.]]), ([[0.], [1.]], [[70000.], [70000.]]), ([[0., 3.], [1., 4.]], [[1e-5, 1e-7], [1e-5, 1.]])]):
        specs.append(('unfit-%d' % i, nb(t, s), None, None, [[0.5] * len(t[0]), [2.0] * len(t[0])]))
    sess = []; models = []; jobs = []; meta = []; live = []
    for id, m, theta, std, X in specs:
        unfit = theta is None
        S = dict(id=id, unfit=unfit, M=[] if unfit else [[q(v) for v in r] for r in theta], S=[] if unfit else [[q(v) for v in r] for r in numpy.sqrt(m.var_)], P=[] if unfit else [int(round(float(p) * 2 ** 24)) for p in m.class_prior_], ev=[]); sess.append(S)
        if not unfit and any(v < 1 for r in S['S'] for v in r): raise vf.Broken('deviation of 0 in ' + id)
        try:
            with nets.no_compile(): cm = emlearn.convert(m)
            code = cm.save(name='nb')
        except Exception as ex: S['ev'].append(dict(op='refused', why=repr(ex)[:200])); continue
        models.append(dict(id=id, code=code, body='float *f = malloc(sizeof(float)*n); for (int i=0;i<n;i++) f[i]=(float)x[i];\nprintf("\\"cls\\":%d,\\"low\\":%d", (int)nb_predict(f, n), (int)eml_bayes_predict(&nb_model, f, n)); free(f);'))
        for x in X: jobs.append((id, x)); meta.append((S, x))
        live.append((S, m, X))
    run = cmodels.build(c, models, san='address,bounds,integer-divide-by-zero')
    for (S, x), r in zip(meta, run(jobs)):
        if 'nocompile' in r or 'crash' in r: S['ev'].append(dict(op='nocompile' if 'nocompile' in r else 'crash', why=str(r)[-300:])); continue
        S['ev'].append(dict(op='predict', via=['generated', 'library'], x=[q(v) for v in x], cls=[r['cls'], r['low']]))
    for S, m, X in rng.sample([v for v in live if not v[0]['unfit']], 8 if not c.thorough else 30):
        try: got = emlearn.convert(m).predict(numpy.array(X))
        except Exception as ex: S['ev'].append(dict(op='raised', why='wrapper ' + repr(ex)[:300])); continue
        for x, g in zip(X, got): S['ev'].append(dict(op='predict', via=['wrapper'], x=[q(v) for v in x], cls=[int(g)]))
    c.judge('BayesTrace', sess)
vf.main('C09', check, assumptions=['inputs are finite and within +-32767', 'class priors are at least 2^-16'])
