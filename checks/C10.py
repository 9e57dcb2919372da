import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, numpy, cmodels, nets
def check(c):
    rng = c.rng
    import emlearn
    from sklearn.covariance import EllipticEnvelope
    c.design_check('Elliptic_MC', 'INIT Init\nNEXT Next\nINVARIANTS Result AtLocation Reflected Verdicts\nCONSTANTS\n PMAX=%d\n DMAX=3\nCHECK_DEADLOCK FALSE\n' % (4 if c.thorough else 2), must=5000)
    def env(m, P, off):
        with numpy.errstate(all='ignore'):
            e = EllipticEnvelope.__new__(EllipticEnvelope); EllipticEnvelope.__init__(e)
        e.location_ = numpy.array(m, dtype=float); e.precision_ = numpy.array(P, dtype=float); e.offset_ = off
        e.covariance_ = numpy.eye(len(m)); e.n_features_in_ = len(m)
        return e
    cases = []
    for i in range(160 if c.thorough else 50):
        f = rng.choice([1, 1, 2, 2, 3, 4, 7, 12]); amp = rng.choice([3, 20]); lim = 2**24
        P = [[0] * f for _ in range(f)]
        for a in range(f):
            for b in range(a + 1): P[a][b] = P[b][a] = rng.randrange(-amp, amp + 1)
            P[a][a] = abs(P[a][a]) + rng.choice([1, amp * f])
        if i % 7 == 0: P = [[(1 if a == b else 0) * rng.randrange(1, 9) for b in range(f)] for a in range(f)]
        u = rng.choice([1, 1, 2, 4, 8])       # inputs and location in units of 1/u
        pu = rng.choice([1, 1, 4, 64, 4096, 2**20])        # entries of the matrix in units of 1/pu
        cases.append((i, f, P, u, pu))
    for f in (30, 130, 260): cases.append(('wide', f, [[rng.choice([0, 0, 0, 1, -1]) if a != b else rng.randrange(1, 5) for b in range(f)] for a in range(f)], 1, 1))
    sess = []; models = []; jobs = []; meta = []; live = []
    for i, f, P, u, pu in cases:
        if i == 'wide':
            for a in range(f):
                for b in range(a): P[a][b] = P[b][a]
        lo = rng.choice([2, 9, 30]); m = [rng.randrange(-lo, lo + 1) for _ in range(f)]
        def dist(x): return sum(P[a][b] * (x[a] - m[a]) * (x[b] - m[b]) for a in range(f) for b in range(f))
        def size(x): return sum(abs(P[a][b] * (x[a] - m[a]) * (x[b] - m[b])) for a in range(f) for b in range(f))
        xs = [list(m)]
        for _ in range(40):
            if len(xs) > (5 if f > 20 else 12): break
            w = rng.choice([1, 3, 10, 60]); x = [v + rng.randrange(-w, w + 1) for v in m]
            if rng.random() < .3: x = list(m); x[rng.randrange(f)] += rng.randrange(-40, 41)
            if size(x) < 2**23: xs.append(x)
        ds = [dist(x) for x in xs]
        off = -rng.choice(ds) + rng.choice([0, 0, 0, 1, -1])       # a point on the boundary, or just beside it
        if rng.random() < .15: off = rng.choice([0, 5, -1, -1000])
        U = u * u * pu
        S = dict(id='envelope-%s-%d' % (i, f), P=P, m=m, offset=off, ev=[]); sess.append(S)
        e = env([v / u for v in m], numpy.array(P) / pu, off / U)
        if rng.random() < .3: e.location_ = e.location_.astype('float32')
        try:
            with nets.no_compile(): code = emlearn.convert(e, method='inline').save(name='ee')
        except Exception as ex: S['ev'].append(dict(op='raised', why=repr(ex)[:300])); continue
        models.append(dict(id=S['id'], code=code, body='float *f = malloc(sizeof(float)*n); for (int i=0;i<n;i++) f[i]=(float)x[i];\nfloat d = -77.0f; int k = eml_elliptic_envelope_predict(&ee_classifier, f, n, &d); int k2 = eml_elliptic_envelope_predict(&ee_classifier, f, n, NULL); float g = ee_predict(f, n);\nprintf("\\"d\\":\\"%a\\",\\"k\\":%d,\\"k2\\":%d,\\"g\\":\\"%a\\"", (double)d, k, k2, (double)g); free(f);'))
        for x in xs: jobs.append((S['id'], [v / u for v in x])); meta.append((S, x, U))
        live.append((S, e, xs, u, U))
    run = cmodels.build(c, models)
    for (S, x, U), r in zip(meta, run(jobs)):
        if 'nocompile' in r or 'crash' in r: S['ev'].append(dict(op='nocompile' if 'nocompile' in r else 'crash', why=str(r)[-300:])); continue
        S['ev'].append(dict(op='envelope', x=x, dist=vf.scaled(r['d'], U), flag=r['k']))
        S['ev'].append(dict(op='envelope', x=x, dist=vf.scaled(r['g'], U), flag=r['k2']))
    pick = live
    for S, e, xs, u, U in rng.sample(pick, min(len(pick), 40 if c.thorough else 12)):
        X = numpy.array(xs) / u
        try:
            w = emlearn.convert(e, method='inline')
            for op, got, k in (('dist', w.mahalanobis(X), U), ('score', w.score_samples(X), U), ('label', w.predict(X), 1)):
                if len(got) != len(xs): S['ev'].append(dict(op='rows'))
                for x, g in zip(xs, got): S['ev'].append(dict(op=op, via='wrapper', x=x, v=vf.scaled(g, k)))
        except Exception as ex: S['ev'].append(dict(op='raised', why='wrapper ' + repr(ex)[:300]))
    # the oracle is also what the source itself says
    for S, e, xs, u, U in live[:10]:
        X = numpy.array(xs) / u
        for x, d, k in zip(xs, e.mahalanobis(X), e.predict(X)):
            if d != d: continue     # not positive definite: the source itself has no answer
            S['ev'].append(dict(op='dist', via='source', x=x, v=vf.scaled(round(float(d) * U), 1)))
            if abs(d + e.offset_) > 1e-6: S['ev'].append(dict(op='label', via='source', x=x, v=int(k)))
    # fitted models: real covariance, judged by rounding to the grid is not exact, so only agreement of flag and distance is used in C04
    c.judge('GaussTrace', sess)
vf.main('C10', check, assumptions=['locations, matrices and inputs are exactly representable, so that the distance is exact in single precision'])
