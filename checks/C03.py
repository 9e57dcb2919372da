import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, treegen as tg, trees_check as tc

def check(c):
    rng = c.rng
    c.design_check('Forest_MC', 'SPECIFICATION Spec\nCONSTANTS\n XMAX=%d\n NC=2\n NT=1\n SHAPES={1,2,3,4}\nINVARIANTS SameLeaf SameNode FlatOK\nCHECK_DEADLOCK FALSE\n'
                   % (2 if c.thorough else 1), must=10000)
    T = tc.Trees(c, 'reg')
    def leafs(vs, span, pool=None):
        vals = [rng.randrange(-span, span + 1) / vs for _ in range(pool)] if pool else None
        return lambda: [rng.choice(vals) if vals else rng.randrange(-span, span + 1) / vs]
    n = 90 if c.thorough else 22
    for i in range(n):
        vs = rng.choice([8, 8, 1, 64, 2**20, 2**26, 2.0**-6]); span = rng.choice([50, 2000, 8000])
        nf = rng.choice([1, 2, 3, 6]); nt = rng.choice([1, 1, 2, 3, 5, 8]); depth = rng.choice([0, 1, 2, 3, 4, 5])
        dts = ['int16_t'] if i % 3 else ['int16_t', rng.choice(['float', 'int8_t', 'int32_t', 'uint8_t'])]
        th = tc.threshold_source(rng, 'uint8_t' if 'uint8_t' in dts else 'int16_t')
        lf = leafs(vs, span, rng.choice([None, None, 2, 4]))
        trees = [tg.rand_tree(rng, depth, nf, th, lf, shape=rng.choice(['random', 'random', 'left', 'right'])) for _ in range(nt)]
        est = tg.make_estimator(trees, nf, 0, classifier=False, kind=rng.choice(['rf', 'et']) if nt > 1 else 'dt', order=rng.choice(['pre', 'bfs']))
        est.vf_vs = vf.Fraction(vs)
        T.add(est, nf, 0, dts, queries=10, wrapper=i % 6 == 0 and vs in (1, 8), label='struct', csv=vs in (1, 8, 64))
    tq = lambda: rng.randrange(-40, 41) / 8
    est = tg.make_estimator([tg.rand_tree(rng, 5, 2, tq, leafs(8, 800), p_leaf=.05) for _ in range(2)], 2, 0, classifier=False); est.vf_vs = vf.Fraction(8)
    T.add(est, 2, 0, ['float'], queries=16, wrapper=True, label='fractions', csv=False)
    th = tc.threshold_source(rng, 'int16_t')
    # close but distinct values (they must not be merged), many leaves, many trees, many features
    close = lambda: [1000 + rng.randrange(0, 8) / 4096]
    for nt, nf, d, lf, vs, lab in [(1, 2, 5, close, 4096, 'close-values'), (3, 2, 4, close, 4096, 'close-values'), (1, 3, 9, leafs(8, 8000), 8, 'many-leaves'),
                                   (50, 4, 3, leafs(8, 800), 8, '50-trees'), (140, 2, 1, leafs(8, 80), 8, '140-trees'), (300, 2, 1, leafs(8, 80), 8, '300-trees'), (2, 4, 10, leafs(8, 8000), 8, '2000-leaves'), (2, 127, 5, leafs(8, 800), 8, '127-features'), (2, 300, 5, leafs(8, 800), 8, '300-features')]:
        est = tg.make_estimator([tg.rand_tree(rng, d, nf, th, lf, p_leaf=0.05) for _ in range(nt)], nf, 0, classifier=False); est.vf_vs = vf.Fraction(vs)
        T.add(est, nf, 0, ['int16_t', 'float'] if nt == 1 else ['int16_t'], queries=12, label=lab)
    # so many distinct leaves that the table of values is larger than 32768 bytes
    leaf = [0]
    def distinct(): leaf[0] += 1; return [leaf[0] / 4]
    est = tg.make_estimator([tg.rand_tree(rng, 13, 3, lambda: float(rng.randrange(-3000, 3000)), distinct, p_leaf=0), tg.rand_tree(rng, 7, 3, lambda: float(rng.randrange(-3000, 3000)), distinct, p_leaf=0)], 3, 0, classifier=False, order='pre'); est.vf_vs = vf.Fraction(8)
    T.add(est, 3, 0, ['int16_t'], queries=40, label='8192-leaves', methods=('loadable',), background=True)
    for e in [-18, 9]:
        f = 2.0 ** e
        def ths(): return (rng.randrange(-64, 65) + rng.choice([0, .5, .25, 1/1024])) * f
        est = tg.make_estimator([tg.rand_tree(rng, 3, 2, ths, leafs(8, 80)) for _ in range(3)], 2, 0, classifier=False); est.vf_vs = vf.Fraction(8)
        T.add(est, 2, 0, ['float'], queries=12, label='scale2^%d' % e, shift=-e, csv=False)
    for i in range(12 if c.thorough else 4):
        kind = ['dt', 'rf', 'et', 'dt'][i % 4]; nf = rng.choice([2, 4])
        kw = dict(max_leaf_nodes=rng.choice([4, 9])) if i % 4 == 3 else {}
        est = tc.fitted(rng, kind, False, nf, 0, 5, integer=i % 2 == 0, **kw)
        if not tc.representable(est): continue
        est.vf_vs = vf.Fraction(2**12)
        T.add(est, nf, 0, ['int16_t', 'float'] if i % 2 == 0 else ['float'], queries=12, wrapper=i < 2, label='fitted-' + kind, csv=False)
    T.run()

vf.main('C03', check, assumptions=['leaf values are compared to about 1e-6 of the largest leaf value (single-precision accumulation)'])
