"""Source tree ensembles: arbitrary tree structures placed into real scikit-learn estimators,
plus genuinely fitted ones, and their projection to the specification's representation."""
import numpy, math
from fractions import Fraction
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor
from sklearn.ensemble import RandomForestClassifier, ExtraTreesClassifier, RandomForestRegressor, ExtraTreesRegressor
from sklearn.tree._tree import Tree
import vf

FR = 2 ** 30
RANGES = {'int8_t': (-128, 127), 'int16_t': (-32768, 32767), 'int32_t': (-2**31, 2**31 - 1),
          'uint8_t': (0, 255), 'uint16_t': (0, 65535)}

def pair(x):
    f = x if isinstance(x, Fraction) else Fraction(float(x)); w = math.floor(f); p = (f - w) * FR
    assert p.denominator == 1, x
    return [int(w), int(p)]

# ------------------------------------------------------------ random structure
def rand_tree(rng, depth, nf, th, leaf, p_leaf=0.25, shape='random', root=True):
    if depth == 0 or (not root and shape == 'random' and rng.random() < p_leaf):
        return ('leaf', leaf())
    f = rng.randrange(nf) if rng.random() < 0.8 else nf - 1
    if shape == 'left':
        return ('node', f, th(), rand_tree(rng, depth - 1, nf, th, leaf, p_leaf, shape, False), ('leaf', leaf()))
    if shape == 'right':
        return ('node', f, th(), ('leaf', leaf()), rand_tree(rng, depth - 1, nf, th, leaf, p_leaf, shape, False))
    return ('node', f, th(), rand_tree(rng, depth - 1, nf, th, leaf, p_leaf, shape, False),
            rand_tree(rng, depth - 1, nf, th, leaf, p_leaf, shape, False))

def number_tree(t, order='pre'):
    """-> list of (left, right, feature, threshold, value or None); node 0 is the root"""
    nodes = []
    if order == 'pre':
        def go(t):
            i = len(nodes); nodes.append(None)
            if t[0] == 'leaf': nodes[i] = (-1, -1, -2, -2.0, t[1])
            else:
                l = go(t[3]); r = go(t[4]); nodes[i] = (l, r, t[1], t[2], None)
            return i
        go(t)
    else:                       # breadth first: as best-first builders number them
        queue = [t]; nodes = [None]; k = 0
        while k < len(queue):
            c = queue[k]
            if c[0] == 'leaf': nodes[k] = (-1, -1, -2, -2.0, c[1])
            else:
                l = len(queue); queue += [c[3], c[4]]; nodes += [None, None]
                nodes[k] = (l, l + 1, c[1], c[2], None)
            k += 1
    return nodes

def depth_of(t): return 0 if t[0] == 'leaf' else 1 + max(depth_of(t[3]), depth_of(t[4]))

def make_tree(nodes, depth, nf, nvals, classifier):
    dt = numpy.dtype({'names': ['left_child', 'right_child', 'feature', 'threshold', 'impurity', 'n_node_samples', 'weighted_n_node_samples', 'missing_go_to_left'],
                      'formats': ['<i8', '<i8', '<i8', '<f8', '<f8', '<i8', '<f8', 'u1'], 'offsets': [0, 8, 16, 24, 32, 40, 48, 56], 'itemsize': 64})
    arr = numpy.zeros(len(nodes), dtype=dt)
    vals = numpy.zeros((len(nodes), 1, nvals))
    for i, (l, r, f, th, v) in enumerate(nodes):
        arr[i] = (l, r, f, th, 0.5, 4, 4.0, 0)
        vals[i, 0, :] = v if v is not None else ([1.0 / nvals] * nvals if classifier else [0.0])
    t = Tree(nf, numpy.array([nvals if classifier else 1], dtype=numpy.intp), 1)
    t.__setstate__(dict(max_depth=depth, node_count=len(nodes), nodes=arr, values=vals))
    return t

def make_estimator(trees, nf, nc, classifier=True, kind=None, order='pre'):
    """trees: nested structures. A real scikit-learn estimator holding exactly these trees."""
    # fit on something trivial to get all fitted attributes, then place the structures
    n = max(nc, 2) if classifier else 2
    X = numpy.arange(n * nf).reshape(n, nf).astype(float)
    y = numpy.arange(n) if classifier else numpy.arange(n, dtype=float)
    if len(trees) == 1 and kind in (None, 'dt'):
        est = (DecisionTreeClassifier if classifier else DecisionTreeRegressor)(max_depth=1).fit(X, y)
        ests = [est]
    else:
        cls = {True: {'rf': RandomForestClassifier, 'et': ExtraTreesClassifier}, False: {'rf': RandomForestRegressor, 'et': ExtraTreesRegressor}}[classifier][kind if kind in ('rf', 'et') else 'rf']
        est = cls(n_estimators=len(trees), max_depth=1, bootstrap=False).fit(X, y)
        ests = est.estimators_
    for e, t in zip(ests, trees):
        e.tree_ = make_tree(number_tree(t, order), depth_of(t), nf, n if classifier else 1, classifier)
    return est

# ------------------------------------------------------------ projection
def members(est): return list(est.estimators_) if hasattr(est, 'estimators_') else [est]

def project(est, values, mul=1):
    """source trees of a fitted estimator in the specification's form.
    values(v): projection of a leaf value vector"""
    out = []
    for e in members(est):
        t = e.tree_; nodes = []
        for i in range(t.node_count):
            if t.children_left[i] == -1:
                nodes.append(dict(leaf=True, v=values(t.value[i][0])))
            else:
                nodes.append(dict(leaf=False, f=int(t.feature[i]), th=pair(Fraction(float(t.threshold[i])) * mul),
                                  l=int(t.children_left[i]) + 1, r=int(t.children_right[i]) + 1))
        out.append(nodes)
    return out

def ranks(v):
    s = sorted(set(float(a) for a in v)); return [s.index(float(a)) for a in v]

def thresholds(est):
    """(feature, threshold) of all decision nodes"""
    out = []
    for e in members(est):
        t = e.tree_
        for i in range(t.node_count):
            if t.children_left[i] != -1: out.append((int(t.feature[i]), float(t.threshold[i])))
    return out

def f32(x): return float(numpy.float32(x))

def queries(rng, est, nf, dtype, n, mul=1):
    """feature vectors around the thresholds of the model and at the extremes"""
    numpy.seterr(all='ignore')
    ths = thresholds(est); out = []
    byf = {}
    for f, t in ths: byf.setdefault(f, []).append(t)
    def val(f):
        r = rng.random()
        if dtype == 'float':
            if byf.get(f) and r < 0.8:
                t = rng.choice(byf[f]); g = f32(t)
                c = [g, float(numpy.nextafter(numpy.float32(g), numpy.float32(numpy.inf))), float(numpy.nextafter(numpy.float32(g), numpy.float32(-numpy.inf))), g + 1, g - 1]
                for v in rng.sample(c, len(c)):
                    v = f32(v)
                    if (Fraction(v) * mul * FR).denominator == 1 and abs(v) * mul < 2**30: return v
            return float(rng.randrange(-40, 41) / Fraction(mul))
        lo, hi = RANGES[dtype]
        if byf.get(f) and r < 0.85:
            v = math.floor(rng.choice(byf[f])) + rng.choice([-1, 0, 0, 0, 1, 1, 2])
        elif r < 0.93: v = rng.choice([lo, hi, 0, -1, 1, lo + 1, hi - 1])
        else: v = rng.randrange(lo, hi + 1)
        v = max(lo, min(hi, v))
        return v           # exact as a double: the harness casts it directly
    for _ in range(n): out.append([val(f) for f in range(nf)])
    if dtype != 'float':
        lo, hi = RANGES[dtype]
        out += [[lo] * nf, [hi] * nf]
    return out
