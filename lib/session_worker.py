"""Runs sessions of convert / use / save / refit / chdir, and what each model answers on its own."""
import sys, os, json, hashlib, warnings, threading, tempfile, shutil
import numpy
def data(kind, rs, nf=4, nc=3):
    X = rs.randint(-100, 100, size=(60, nf)).astype(float); y = rs.randint(0, nc, size=60); X[:, 0] += 80 * y
    if 'regress' in kind: y = X[:, 0] * rs.uniform(0.5, 2) + rs.rand(60) * 50
    return X, y
def makers():
    from sklearn.tree import DecisionTreeClassifier
    from sklearn.ensemble import RandomForestClassifier, ExtraTreesRegressor, ExtraTreesClassifier
    from sklearn.naive_bayes import GaussianNB
    from sklearn.neighbors import KNeighborsClassifier
    from sklearn.neural_network import MLPClassifier, MLPRegressor
    from sklearn.covariance import EllipticEnvelope
    from sklearn.mixture import GaussianMixture
    return {'tree': (lambda: DecisionTreeClassifier(random_state=1), {}), 'tree-float': (lambda: DecisionTreeClassifier(random_state=1), dict(dtype='float')),
        'forest-loadable': (lambda: RandomForestClassifier(4, random_state=1), dict(method='loadable')), 'forest-soft': (lambda: ExtraTreesClassifier(4, max_depth=4, random_state=1), dict(leaf_bits=6)),
        'trees-regress': (lambda: ExtraTreesRegressor(3, random_state=1), dict(dtype='float')), 'trees-regress-loadable': (lambda: ExtraTreesRegressor(3, random_state=1), dict(method='loadable')),
        'bayes': (lambda: GaussianNB(), {}), 'knn': (lambda: KNeighborsClassifier(3), {}),
        'mlp': (lambda: MLPClassifier((5,), max_iter=4, random_state=1), {}), 'mlp-inline': (lambda: MLPClassifier((5,), max_iter=4, random_state=1), dict(method='inline')),
        'mlp-regress': (lambda: MLPRegressor(hidden_layer_sizes=(5,), max_iter=4, random_state=1), dict(return_type='regressor')),
        'envelope': (lambda: EllipticEnvelope(random_state=1), dict(method='inline')), 'mixture': (lambda: GaussianMixture(2, random_state=1), {})}
KINDS = ['tree', 'tree-float', 'forest-loadable', 'forest-soft', 'trees-regress', 'trees-regress-loadable', 'bayes', 'knn', 'mlp', 'mlp-inline', 'mlp-regress', 'envelope', 'mixture']
def digest(o, h=None, depth=0):
    """contents of an estimator: every attribute, arrays by value"""
    top = h is None; h = h or hashlib.sha1()
    if isinstance(o, numpy.ndarray):
        if o.dtype == object: [digest(x, h, depth + 1) for x in o.ravel()]
        else: h.update(str(o.dtype).encode() + str(o.shape).encode() + numpy.ascontiguousarray(o).tobytes())
    elif isinstance(o, (list, tuple)): [digest(x, h, depth + 1) for x in o]
    elif isinstance(o, dict): [(h.update(str(k).encode()), digest(o[k], h, depth + 1)) for k in sorted(o, key=str)]
    elif isinstance(o, (str, int, float, bool, bytes, type(None), numpy.generic)): h.update(repr(o).encode())
    elif type(o).__name__ == 'Tree':
        st = o.__getstate__(); h.update(numpy.array([list(map(float, (o.children_left[i], o.children_right[i], o.feature[i], o.threshold[i]))) for i in range(o.node_count)]).tobytes()); digest(numpy.asarray(o.value), h, depth + 1); h.update(str(sorted(st)).encode())
    elif depth < 6 and hasattr(o, '__dict__') and not callable(o): h.update(type(o).__name__.encode()); digest({k: v for k, v in vars(o).items() if not k.startswith('_optimizer') and k not in ('_random_state', '_label_binarizer', '_tree')}, h, depth + 1)
    return h.hexdigest()[:16] if top else None
class Source:
    def __init__(self, kind, seed, how=None): self.kind = kind; self.rs = numpy.random.RandomState(seed); self.est = None; self.how = how; self.fit()
    def fit(self):
        """fits to new data: again from the start, on the same arrays as before, or continuing from the current fit"""
        if self.how == 'inplace' and self.est is not None:       # the parameters change where they are, without a new fit
            for k in sorted(vars(self.est)):
                v = vars(self.est)[k]
                if k != '_fit_X' and (k.startswith('_') or not k.endswith('_')): continue
                for a in v if isinstance(v, list) else [v]:
                    if isinstance(a, numpy.ndarray) and a.dtype.kind == 'f' and a.flags.writeable:
                        if k == '_fit_X': a += 3
                        else: a *= 1.25
            for e in numpy.ravel(getattr(self.est, 'estimators_', [self.est])):
                if hasattr(e, 'tree_'): e.tree_.threshold[:] += 3
                if hasattr(e, 'tree_') and 'regress' in self.kind: e.tree_.value[:] += 1000
            return
        X, y = data(self.kind, self.rs); how = self.rs.choice(['again', 'buffer', 'continue']); how = self.how or how; first = self.est is None
        if first or how == 'again': self.X, self.y = X, y
        else: self.X[:] = X; self.y[:] = y
        X, y = self.X, self.y
        with warnings.catch_warnings(), numpy.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            make, self.kw = makers()[self.kind]
            self.est = self.est or make()
            if how == 'continue' and not first and hasattr(self.est, 'partial_fit'): self.est.partial_fit(X, y); return
            if how == 'continue' and not first and 'warm_start' in self.est.get_params():
                self.est.set_params(warm_start=True)
                if 'n_estimators' in self.est.get_params(): self.est.set_params(n_estimators=self.est.n_estimators + 2)
            self.est.fit(X) if self.kind in ('envelope', 'mixture') else self.est.fit(X, y)
            if 'warm_start' in self.est.get_params(): self.est.set_params(warm_start=False)
    def late(self):
        """one parameter differs, late in the model"""
        e = self.est; last = numpy.ravel(getattr(e, 'estimators_', [e]))[-1]
        if hasattr(last, 'tree_'):
            t = last.tree_; t.threshold[[j for j in range(t.node_count) if t.children_left[j] >= 0][-4:]] += 1000
        elif self.kind == 'knn': e._fit_X[-1] += 3
        elif 'mlp' in self.kind: e.intercepts_[-1][-1] += 30
        else: a = {'bayes': 'var_', 'envelope': 'precision_', 'mixture': 'precisions_cholesky_'}[self.kind]; getattr(e, a)[..., -1, -1] *= 1.5
        return self
def hexes(a): return [float(x).hex() for x in numpy.ravel(numpy.asarray(a))]
def use(m, op, kind, X):
    with numpy.errstate(all='ignore'):
        if op == 'predict': return hexes(m.predict(X))
        if op == 'proba':
            if kind in ('tree', 'tree-float', 'forest-loadable', 'forest-soft', 'mlp'): return hexes(m.predict_proba(X))
            if kind in ('mixture', 'envelope'): return hexes(m.score_samples(X))
            return hexes(m.predict(X[::-1]))
        if op == 'save':
            fn = os.path.join(os.getcwd(), 'saved_model.h'); t = m.save(name='saved', file=fn); f = open(fn).read()
            return [hashlib.sha1(t.encode()).hexdigest()[:16], 'same' if t == f else 'differs']
def convert(s):
    import emlearn
    m = emlearn.convert(s.est, **s.kw)
    if hasattr(m, 'verbose'): m.verbose = 0
    return m
def job(j):
    X = numpy.random.RandomState(5).randint(-150, 150, size=(30, 4)).astype(float); xs = hashlib.sha1(X.tobytes()).hexdigest()[:16]
    names = 'abcd'[:len(j['kinds'])]; home = os.getcwd()
    def source(i, n, k):
        if not j.get('similar'): return Source(k, j['seed'] * 10 + i, j.get('how'))
        s = Source(k, j['seed'] * 10)
        return s.late() if n == 'b' else s
    src = {n: source(i, n, k) for i, (n, k) in enumerate(zip(names, j['kinds']))}
    # on its own: every revision that the history reaches, each in its own directory
    ref = {n: [] for n in names}; looks = {n: [] for n in names}
    twin = {n: source(i, n, k) for i, (n, k) in enumerate(zip(names, j['kinds']))}
    for n in names:
        revs = 1 + sum(1 for o in j['hist'] if o['op'] == 'refit' and o['s'] == n)
        for r in range(revs):
            if r: twin[n].fit()
            looks[n].append(digest(twin[n].est)); row = {}
            for op in ('predict', 'proba', 'save'):
                d = tempfile.mkdtemp(dir=home, prefix='alone'); os.chdir(d)
                try: row[op] = use(convert(twin[n]), op, twin[n].kind, X)
                except Exception as ex: row[op] = ['raised', repr(ex)[:100]]
                os.chdir(home); shutil.rmtree(d)
            ref[n].append(row)
    dirs = {1: tempfile.mkdtemp(dir=home, prefix='one'), 2: tempfile.mkdtemp(dir=home, prefix='two')}
    os.chdir(dirs[1]); out = []
    def play(hist, ev, rename=None):
        models = {}; kinds = {}
        for o in hist:
            s = rename if o.get('s') == 'x' else o.get('s'); e = dict(o)
            if s: e['s'] = s
            try:
                if o['op'] == 'convert': models[o['m']] = convert(src[s]); kinds[o['m']] = src[s].kind
                elif o['op'] == 'refit': src[s].fit()
                elif o['op'] == 'chdir': os.chdir(dirs[o['d']])
                else: e['res'] = use(models[o['m']], o['op'], kinds[o['m']], X)
            except Exception as ex: ev.append(dict(op='raised-' + o['op'], why=repr(ex)[:300])); return
            e['x'] = hashlib.sha1(X.tobytes()).hexdigest()[:16]
            if not rename: e['now'] = {n: digest(src[n].est) for n in names}
            ev.append(e)
    if j.get('threads'):
        evs = {n: [] for n in names}
        ts = [threading.Thread(target=play, args=(j['hist'], evs[n], n)) for n in names]
        [t.start() for t in ts]; [t.join() for t in ts]
        for n in names: out.append(dict(id=j['id'] + '-' + n, ref=ref, looks=looks, x=xs, ev=evs[n]))
    else:
        ev = []; play(j['hist'], ev); out.append(dict(id=j['id'], ref=ref, looks=looks, x=xs, ev=ev))
    os.chdir(home); [shutil.rmtree(d) for d in dirs.values()]
    return out
if __name__ == '__main__':
    with open(sys.argv[2], 'w') as f:
        for j in json.load(open(sys.argv[1])):
            for s in job(j): f.write(json.dumps(s) + '\n')
