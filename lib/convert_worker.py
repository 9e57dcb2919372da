"""Builds source models of a configuration of spec/Convert.tla, converts and uses them, and
records what came out next to what the source model says. stdin: JSON jobs, stdout: JSON events."""
import sys, os, json, warnings, random, math
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3'); os.environ.setdefault('CUDA_VISIBLE_DEVICES', '')
import numpy
warnings.simplefilter('ignore')
def quiet(): return numpy.errstate(all='ignore')
def micro(x):
    x = float(x)
    if x != x: return -2147483646
    if abs(x) > 2000: return -2147483647
    return int(round(x * 1000000))
def sub(cls, name='MyModel'): return type(name, (cls,), {})
class Case:
    """est: source; kw: options; X: rows; classes(X) -> [(want, clear)], floats(X) -> [want] or None;
    got_floats(m, X) -> values of the converted model"""
    def __init__(self, est, kw, X, classes=None, floats=None, got_floats=None, top=None, low=0, predict=True):
        self.est = est; self.kw = kw; self.X = X; self.classes = classes; self.floats = floats; self.got_floats = got_floats; self.top = top or 2000000000; self.low = low
def via(cls, how, kw):
    """the class to fit, and options, for a way to hand over the model"""
    name = cls.__name__
    if how == 'sub': kw['kind'] = name; return sub(cls)
    if how == 'subnokind': return sub(cls)
    if how == 'wrongkind': kw['kind'] = {'GaussianNB': 'EllipticEnvelope', 'KNeighborsClassifier': 'GaussianNB', 'GaussianMixture': 'KNeighborsClassifier', 'BayesianGaussianMixture': 'KNeighborsClassifier'}.get(name, 'GaussianNB')
    return cls
def opt(kw, name, v):
    if v != 'none': kw[name] = v
def trees(cfg, rs, rng):
    from sklearn import tree, ensemble
    cls_task = cfg['task'] == 'cls'; kw = {}
    base = {('dt', True): tree.DecisionTreeClassifier, ('dt', False): tree.DecisionTreeRegressor, ('rf', True): ensemble.RandomForestClassifier, ('rf', False): ensemble.RandomForestRegressor, ('et', True): ensemble.ExtraTreesClassifier, ('et', False): ensemble.ExtraTreesRegressor}[(cfg['est'], cls_task)]
    K = via(base, cfg['via'], kw); opt(kw, 'method', cfg['method']); opt(kw, 'dtype', cfg['dtype'])
    if cfg['bits'] != 'none': kw['leaf_bits'] = int(cfg['bits'])
    nf = int(cfg['features']); nc = int(cfg['classes']); dt = cfg['dtype']
    real = dt in ('float', 'double', 'float16', 'bogus') ; low = 0 if 'uint' in dt else -100
    if cfg['size'] != 'small':
        # a far jump: the left side of the root has this many decision nodes
        import treegen
        left = 32766 if cfg['size'] == 'far' else 32767
        def grow(n):          # a balanced tree with n decision nodes
            if n == 0: return ('leaf', [1.0, 0.0] if rng.random() < .5 else [0.0, 1.0])
            a = (n - 1) // 2
            return ('node', rng.randrange(nf), rng.randrange(max(low, -90), 90) + .5, grow(a), grow(n - 1 - a))
        root = ('node', 0, 0.5, grow(left), grow(3))
        est = treegen.make_estimator([root], nf, 2, True)
        X = rs.randint(low, 100, size=(24, nf)).astype(float); X[12:, 0] = rs.randint(1, 90, 12)
        members = [est]; nc = 2; cls_task = True
        if cfg['via'] == 'sub': kw.pop('kind')
    else:
        n = max(60, 2 * nc); X = rs.randint(low, 100, size=(n, nf)).astype(float)
        if real: X = (X + rs.rand(n, nf)).astype('float32').astype(float)
        y = numpy.arange(n) % nc if cls_task else X[:, 0] * .37 + rs.rand(n) * 30
        if cfg['via'] == 'multi': y = numpy.stack([y, y[::-1]], axis=1)
        args = dict(random_state=rng.randrange(1000))
        if cfg['bits'] not in ('none', '0', '1'): args['min_samples_leaf'] = 3
        if cfg['est'] != 'dt': args['n_estimators'] = 4
        if cfg['est'] == 'rf' and nc > 60: args['bootstrap'] = False
        with quiet(): est = K(**args).fit(X, y)
        X = numpy.vstack([X[:8], X[-4:], rs.randint(low, 100, size=(12, nf))]).astype(float)
        members = list(est.estimators_) if hasattr(est, 'estimators_') else [est]
    soft = cfg['bits'] not in ('none', '0', '1'); bits = int(cfg['bits']) if soft else 0
    def proba(X):
        P = [numpy.asarray(m.predict_proba(X)) for m in members]
        if not soft: P = [numpy.eye(nc)[numpy.argmax(p, axis=1)] for p in P]
        return sum(P) / len(P)
    def classes(X):
        P = proba(X); s = numpy.sort(P, axis=1); gap = s[:, -1] - s[:, -2] if nc > 1 else numpy.ones(len(X))
        need = 1e-6 if not soft else (2.2 / (2 ** min(bits, 8) - 2) if bits > 0 else .02) + .01
        return [(int(numpy.argmax(p)), bool(g > need)) for p, g in zip(P, gap)]
    if cls_task and cfg['via'] != 'multi':
        # probabilities of the source: those of few classes
        return Case(est, kw, X, classes, (lambda X: proba(X)[:6]) if nc <= 31 else None, (lambda m, X: m.predict_proba(X)[:6]) if nc <= 31 else None, top=nc)
    return Case(est, kw, X, None, lambda X: est.predict(X), lambda m, X: m.predict(X))
def knn(cfg, rs, rng):
    from sklearn.neighbors import KNeighborsClassifier
    kw = {}; K = via(KNeighborsClassifier, cfg['via'], kw); opt(kw, 'method', cfg['method'])
    nc = int(cfg['classes']); n = max(int(cfg['items']), 2 * nc); k = int(cfg['k'])
    scale = {'small': 60, 'wide': 12000, 'outside': 60000, 'sparse': 60}[cfg['data']]
    X = rs.randint(-scale, scale, size=(n, 3)).astype(float); y = numpy.arange(n) % nc
    X[:, 0] = (y * 2 * scale // nc) - scale + rs.randint(0, max(1, scale // nc), n)
    args = dict(n_neighbors=k, algorithm=cfg['algorithm'])
    if cfg['metric'] == 'p1': args['p'] = 1
    elif cfg['metric'] == 'callable': args['metric'] = lambda a, b: float(numpy.abs(a - b).sum())
    elif cfg['metric'] != 'default': args['metric'] = cfg['metric']
    if cfg['weights'] != 'uniform': args['weights'] = (lambda d: numpy.exp(-d)) if cfg['weights'] == 'callable' else cfg['weights']
    if cfg['metric'] in ('cosine', 'callable') and cfg['algorithm'] in ('kd_tree', 'ball_tree'): args['algorithm'] = 'auto'
    lab = y
    if cfg['labels'] == '10..': lab = y * 3 + 10
    elif cfg['labels'] == 'text': lab = numpy.array(['c%02d' % v for v in y])
    if cfg['via'] == 'multi': lab = numpy.stack([lab, lab[::-1]], axis=1)
    XX = X
    if cfg['data'] == 'sparse':
        import scipy.sparse; XX = scipy.sparse.csr_matrix(X)
    with quiet(): est = K(**args).fit(XX, lab)
    Q = numpy.vstack([X[rs.randint(0, n, 14)] + rs.randint(-2, 3, (14, 3)), rs.randint(-scale, scale, size=(8, 3))]).astype(float); Q = numpy.clip(Q, -32768, 32767) if scale < 32768 else Q
    def classes(Q):
        out = []
        with quiet(): d, i = est.kneighbors(Q, n_neighbors=min(k + 1, n)); p = est.predict_proba(Q)
        for a, b, q in zip(d, p, Q):
            s = numpy.sort(b); clear = (len(a) <= k or math.floor(a[k]) > math.floor(a[k - 1])) and (len(s) < 2 or s[-1] - s[-2] > 1e-9) and numpy.all(numpy.abs(q) <= 32767)
            out.append((int(numpy.argmax(b)), bool(clear)))
        return out
    if cfg['via'] == 'multi': return Case(est, kw, Q, lambda Q: [(int(v[0]), True) for v in est.predict(Q)])
    return Case(est, kw, Q, classes, top=nc)
def mlp(cfg, rs, rng):
    from sklearn.neural_network import MLPClassifier, MLPRegressor
    kw = {}; task = cfg['task']; no = int(cfg['outputs']); B = MLPRegressor if task == 'reg' else MLPClassifier
    K = via(B, cfg['via'], kw)
    if cfg['via'] == 'fixedpoint': kw['use_fixedpoint'] = True
    opt(kw, 'method', cfg['method'])
    if cfg['returns'] == 'matching': kw['return_type'] = 'regressor' if task == 'reg' else 'classifier'
    elif cfg['returns'] != 'default': kw['return_type'] = cfg['returns']
    hidden = {'5': (5,), 'none': (), '4+3': (4, 3), '130': (130,)}[cfg['hidden']]
    nf = rng.choice([1, 3, 4]); n = 60; X = rs.uniform(-2, 2, (n, nf))
    if task == 'cls': y = numpy.arange(n) % max(2, no) if no > 1 else numpy.arange(n) % 2
    elif task == 'multilabel': y = rs.randint(0, 2, (n, max(2, no)))
    else: y = rs.uniform(-2, 2, (n, no)) if no > 1 else rs.uniform(-2, 2, n)
    with quiet(): est = K(hidden_layer_sizes=hidden, activation=cfg['act'], max_iter=3, random_state=rng.randrange(1000)).fit(X, y)
    est.coefs_ = [rs.normal(size=w.shape) * 1.2 for w in est.coefs_]; est.intercepts_ = [rs.normal(size=b.shape) * .5 for b in est.intercepts_]
    X = numpy.vstack([X[:12], rs.uniform(-4, 4, (10, nf))]).astype('float32').astype(float)
    rt = kw.get('return_type', 'classifier')
    if task == 'reg' and rt == 'regressor': return Case(est, kw, X, None, lambda X: est.predict(X), lambda m, X: m.predict(X))
    if task == 'reg' or (task == 'cls' and no == 1 and False):
        def classes(X):        # documented: the output is made binary, or the largest wins
            p = numpy.asarray(est.predict(X)).reshape(len(X), -1)
            if p.shape[1] == 1: return [(int(v[0] > .5), bool(abs(v[0] - .5) > 1e-3)) for v in p]
            s = numpy.sort(p, axis=1); return [(int(numpy.argmax(v)), bool(a[-1] - a[-2] > 1e-3)) for v, a in zip(p, s)]
        return Case(est, kw, X, classes)
    if task == 'multilabel':   # rows of labels: no class number says the same
        return Case(est, kw, X, lambda X: [(-1 if numpy.sum(v) != 1 else int(numpy.argmax(v)), True) for v in est.predict(X)])
    def classes(X):
        p = est.predict_proba(X); s = numpy.sort(p, axis=1); return [(int(numpy.argmax(v)), bool(a[-1] - a[-2] > 1e-3)) for v, a in zip(p, s)]
    if rt == 'regressor': return Case(est, kw, X, None, lambda X: est.predict_proba(X)[:, 1] if est.n_outputs_ == 1 else est.predict_proba(X), lambda m, X: m.predict(X))
    return Case(est, kw, X, classes, (lambda X: est.predict_proba(X)) if kw.get('method') != 'inline' else None, lambda m, X: m.predict_proba(X), top=max(2, est.n_outputs_))
def keras(cfg, rs, rng):
    with quiet():
        import tensorflow as tf
        from tensorflow import keras as K
    L = K.layers; kw = {}; opt(kw, 'method', cfg['method'])
    if cfg['returns'] != 'default': kw['return_type'] = cfg['returns']
    ts = cfg['tokens']; nd = sum(t.startswith('dense') for t in ts); no = int(cfg['outputs']); nf = 3
    layers = [L.Input((nf,) if cfg['input'] == 'flat' else (2, nf))]; d = 0
    def own_relu(x): return tf.nn.relu(x) * 2 - 1
    own_relu.__name__ = 'relu'
    lrelu = getattr(L, 'LeakyReLU')
    for t in ts:
        if t.startswith('dense'):
            d += 1; a = t.split(':')[1]; units = no if d == nd else rng.choice([2, 4, 5])
            if a == 'nobias': layers.append(L.Dense(units, activation='relu', use_bias=False))
            elif a == 'own-relu': layers.append(L.Dense(units, activation=own_relu))
            elif a == 'leaky': layers.append(L.Dense(units, activation=lrelu(0.3)))
            else: layers.append(L.Dense(units, activation=a))
        elif t.startswith('act:'): layers.append(L.Activation(t[4:]))
        elif t == 'relu': layers.append(L.ReLU())
        elif t == 'relu:max': layers.append(L.ReLU(max_value=0.4))
        elif t == 'relu:slope': layers.append(L.ReLU(negative_slope=0.3))
        elif t == 'relu:threshold': layers.append(L.ReLU(threshold=0.5))
        elif t == 'softmax': layers.append(L.Softmax())
        elif t == 'softmax:axis0': layers.append(L.Softmax(axis=0) if cfg['input'] == 'flat' else L.Softmax(axis=1))
        elif t == 'dropout': layers.append(L.Dropout(.5))
        elif t == 'batchnorm': layers.append(L.BatchNormalization())
        elif t == 'flatten': layers.append(L.Flatten())
        elif t == 'leaky': layers.append(lrelu(0.2))
        elif t == 'prelu': layers.append(L.PReLU())
        elif t == 'noise': layers.append(L.GaussianNoise(.3))
        elif t == 'l1': layers.append(L.ActivityRegularization(l1=.1))
    with quiet():
        m = K.Sequential(layers)
        m.set_weights([(rs.normal(size=w.shape) * (1.0 if w.ndim > 1 else .4) + (1.5 if 'batch' in str(ts) and w.ndim == 1 else 0)).astype('float32') ** (2 if 'batchnorm' in ts and w.ndim == 1 else 1) for w in m.get_weights()])
    X = rs.uniform(-3, 3, (20, nf)).astype('float32')
    def out(X):
        if cfg['input'] != 'flat': X = numpy.repeat(X[:, None, :], 2, axis=1)
        with quiet(): p = numpy.asarray(m(X.astype('float32'), training=False), dtype=float)
        return p.reshape(len(X), -1)
    def classes(X):
        p = out(X)
        if p.shape[1] == 1: return [(int(v[0] > .5), bool(abs(v[0] - .5) > .001)) for v in p]
        s = numpy.sort(p, axis=1); return [(int(numpy.argmax(v)), bool(a[-1] - a[-2] > .001 + abs(a[-1]) / 1e4)) for v, a in zip(p, s)]
    if cfg['returns'] == 'regressor': return Case(m, kw, X, None, lambda X: out(X)[:, 0] if no == 1 else out(X), lambda c, X: c.predict(X))
    def probs(X):
        p = out(X); return numpy.stack([1 - p[:, 0], p[:, 0]], axis=1) if p.shape[1] == 1 else p
    soft = bool(ts) and [t for t in ts if t not in ('dropout', 'act:linear', 'l1', 'noise')][-1:] [0:1] in ([['softmax']], )
    last = [t for t in ts if t not in ('dropout', 'act:linear')]
    is_p = bool(last) and (last[-1] in ('softmax', 'act:softmax', 'dense:softmax') or (no == 1 and last[-1] in ('act:sigmoid', 'dense:sigmoid')))
    return Case(m, kw, X, classes, probs if is_p and kw.get('method') != 'inline' else None, lambda c, X: c.predict_proba(X), top=max(2, no))
def bayes(cfg, rs, rng):
    from sklearn.naive_bayes import GaussianNB
    kw = {}; K = via(GaussianNB, cfg['via'], kw); opt(kw, 'method', cfg['method'])
    nc = int(cfg['classes']); nf = int(cfg['features']); n = 40 * nc; sc = {'normal': 1, 'large': 500, 'small': .05, 'huge': 20000, 'tiny': 1e-6}[cfg['scale']]
    y = numpy.arange(n) % nc
    if cfg['priors'] == 'fitted' and nc > 1: y = numpy.where(rs.rand(n) < .85, 0, y); y[:2 * nc] = list(range(nc)) * 2
    X = rs.normal(size=(n, nf)) + 1.3 * rs.normal(size=(nc, nf))[y]; X *= sc
    args = {}
    if cfg['priors'] == 'given': w = numpy.array([1.0] + [30.0] * (nc - 1)); args['priors'] = list(w / w.sum())
    with quiet(): est = K(**args).fit(X, y)
    Q = numpy.vstack([X[:20], X[rs.randint(0, n, 10)] * 1.5]).astype('float32').astype(float); Q = numpy.clip(Q, -32000, 32000)
    def classes(Q):
        with quiet(): j = est._joint_log_likelihood(Q)
        if nc == 1: return [(0, True)] * len(Q)
        s = numpy.sort(j, axis=1); return [(int(numpy.argmax(v)), bool(a[-1] - a[-2] > .1 + .002 * abs(a[-1]))) for v, a in zip(j, s)]
    return Case(est, kw, Q, classes, top=nc)
def envelope(cfg, rs, rng):
    from sklearn.covariance import EllipticEnvelope
    kw = {}; K = via(EllipticEnvelope, cfg['via'], kw); opt(kw, 'method', cfg['method']); opt(kw, 'dtype', cfg['dtype'])
    nf = int(cfg['features']); X = rs.normal(size=(120, nf)) @ (numpy.eye(nf) + .4 * rs.rand(nf, nf)) + 3
    with quiet(): est = K(contamination=float(cfg['contamination']), assume_centered=cfg['centered'] == 'yes', random_state=1).fit(X)
    Q = numpy.vstack([X[:16], rs.normal(size=(12, nf)) * 2.5 + 3]).astype('float32').astype(float)
    def classes(Q):
        with quiet(): d = est.decision_function(Q); s = est.score_samples(Q)
        return [(1 if v >= 0 else -1, bool(abs(v) > .01 + abs(w) / 500)) for v, w in zip(d, s)]
    return Case(est, kw, Q, classes, lambda Q: est.score_samples(Q), lambda m, Q: m.score_samples(Q), top=2, low=-1)
def mixture(cfg, rs, rng):
    from sklearn.mixture import GaussianMixture, BayesianGaussianMixture
    kw = {}; K = via(GaussianMixture if cfg['est'] == 'gmm' else BayesianGaussianMixture, cfg['via'], kw); opt(kw, 'method', cfg['method']); opt(kw, 'dtype', cfg['dtype'])
    nf = int(cfg['features']); k = int(cfg['components']); X = numpy.vstack([rs.normal(size=(60, nf)) * rs.uniform(.4, 1.5) + 4 * rs.normal(size=nf) for _ in range(3)])
    with quiet(): est = K(n_components=k, covariance_type=cfg['cov'], random_state=1, max_iter=200).fit(X)
    Q = numpy.vstack([X[rs.randint(0, len(X), 6)], rs.normal(size=(4, nf)) * 4]).astype('float32').astype(float)
    def classes(Q):
        with quiet(): p = est.predict_proba(Q)
        s = numpy.sort(p, axis=1); return [(int(numpy.argmax(v)), bool(len(a) < 2 or a[-1] - a[-2] > .05)) for v, a in zip(p, s)]
    return Case(est, kw, Q, classes, lambda Q: est.score_samples(Q), lambda m, Q: m.score_samples(Q), top=k)
def other(cfg, rs, rng):
    w = cfg['what']; kw = {}; X = rs.randint(-50, 50, (60, 3)).astype(float); y = (X[:, 0] > 0).astype(int); X0 = X
    from sklearn import ensemble, svm, linear_model, neighbors, cluster, naive_bayes, pipeline, preprocessing, model_selection, tree, dummy, covariance, mixture, neural_network, multiclass, calibration
    def make():
        if w == 'gradient-boosting': return ensemble.GradientBoostingClassifier(n_estimators=3)
        if w == 'svc': return svm.SVC()
        if w == 'linear-svc': return svm.LinearSVC()
        if w == 'logistic': return linear_model.LogisticRegression()
        if w == 'linear': return linear_model.LinearRegression()
        if w == 'ridge': return linear_model.RidgeClassifier()
        if w == 'isolation-forest': return ensemble.IsolationForest(n_estimators=3)
        if w == 'knn-regressor': return neighbors.KNeighborsRegressor()
        if w == 'radius-neighbors': return neighbors.RadiusNeighborsClassifier(radius=50)
        if w == 'nearest-neighbors': return neighbors.NearestNeighbors()
        if w == 'kmeans': return cluster.KMeans(2, n_init=1)
        if w == 'multinomial-nb': return naive_bayes.MultinomialNB()
        if w == 'bernoulli-nb': return naive_bayes.BernoulliNB()
        if w == 'adaboost': return ensemble.AdaBoostClassifier(n_estimators=3)
        if w == 'bagging': return ensemble.BaggingClassifier(n_estimators=3)
        if w == 'pipeline': return pipeline.make_pipeline(preprocessing.StandardScaler(), tree.DecisionTreeClassifier())
        if w == 'grid-search': return model_selection.GridSearchCV(tree.DecisionTreeClassifier(), dict(max_depth=[2, 3]), cv=2)
        if w == 'extra-tree': return tree.ExtraTreeClassifier()
        if w == 'hist-boosting': return ensemble.HistGradientBoostingClassifier(max_iter=3)
        if w == 'dummy': return dummy.DummyClassifier()
        if w == 'one-class-svm': return svm.OneClassSVM()
        if w == 'lof': return neighbors.LocalOutlierFactor(novelty=True)
        if w == 'voting': return ensemble.VotingClassifier([('a', tree.DecisionTreeClassifier()), ('b', naive_bayes.GaussianNB())])
        if w == 'calibrated': return calibration.CalibratedClassifierCV(naive_bayes.GaussianNB(), cv=2)
        if w == 'empirical-covariance': return covariance.EmpiricalCovariance()
        if w == 'min-cov-det': return covariance.MinCovDet()
        if w == 'onevsrest': return multiclass.OneVsRestClassifier(tree.DecisionTreeClassifier())
        if w == 'bogus-kind': kw['kind'] = rng.choice(['Bogus', '', 'randomforestclassifier', 'DecisionTree', 'Sequential ']); return tree.DecisionTreeClassifier()
    if w == 'none': est = None
    elif w == 'text': est = 'RandomForestClassifier'
    elif w == 'number': est = 3.0
    elif w == 'class': est = tree.DecisionTreeClassifier
    elif w.startswith('unfitted'):
        est = dict(trees=tree.DecisionTreeClassifier, forest=ensemble.RandomForestClassifier, knn=neighbors.KNeighborsClassifier, mlp=neural_network.MLPClassifier, bayes=naive_bayes.GaussianNB, envelope=covariance.EllipticEnvelope, mixture=mixture.GaussianMixture)[w[9:]]()
        if w == 'unfitted-envelope': kw['method'] = 'inline'
    else:
        if w == 'multinomial-nb': X = abs(X)
        with quiet(): est = make().fit(X, y)
    return Case(est, kw, X0[:5])
def run(job):
    fam, cfg, seed = job['fam'], job['cfg'], job['seed']
    rs = numpy.random.RandomState(seed); rng = random.Random(seed)
    try: C = globals()[fam](cfg, rs, rng)
    except Exception as ex: return dict(op='nosource', why=repr(ex)[:300], fam=fam, cfg=cfg)
    e = dict(op='convert', fam=fam, cfg=cfg, outcome='refused', classes=[], floats=[], top=C.top, low=C.low)
    import emlearn
    if hasattr(C.est, 'verbose'): pass
    try: m = emlearn.convert(C.est, **C.kw)
    except Exception as ex: e['why'] = repr(ex)[:250]; return e
    if hasattr(m, 'verbose'): m.verbose = 0
    e['outcome'] = 'predicted'
    try:
        X = C.X
        if fam == 'other': m.predict(X); return e
        m.save(name='saved_one')
        if C.classes:
            with quiet(): want = C.classes(X)
            got = numpy.asarray(m.predict(X))
            if got.shape != (len(X),): e['classes'] = [[0, -99, True]]; e['why'] = 'shape %s' % (got.shape,); return e
            e['classes'] = [[w, int(g) if float(g) == int(g) else -99, c] for (w, c), g in zip(want, got)]
        if C.floats:
            with quiet(): want = numpy.asarray(C.floats(X))
            got = numpy.asarray(C.got_floats(m, X))
            if want.size != got.size: e['classes'] = [[0, -99, True]]; e['why'] = 'shape %s %s' % (want.shape, got.shape); return e
            e['floats'] = [[micro(a), micro(b)] for a, b in zip(want.ravel(), got.ravel())]
    except Exception as ex:
        # a program ended by a signal is not a refusal
        e['outcome'] = 'crash' if isinstance(getattr(ex, 'returncode', None), int) and ex.returncode < 0 else 'late'; e['why'] = repr(ex)[:250]
    return e
if __name__ == '__main__':
    sys.path.insert(0, os.environ['EML_REPO'])
    import emlearn
    out = os.fdopen(os.dup(1), 'w'); os.dup2(2, 1)
    for line in sys.stdin:
        job = json.loads(line)
        try: e = run(job)
        except Exception:
            import traceback; e = dict(op='broken', why=traceback.format_exc()[-1500:])
        e['job'] = job['job']
        out.write(json.dumps(e) + '\n'); out.flush()
