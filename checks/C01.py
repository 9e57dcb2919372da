import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, treegen as tg, trees_check as tc

DT = ['int16_t', 'float', 'int8_t', 'int32_t', 'uint8_t', 'uint16_t']

def check(c):
    rng = c.rng
    c.design_check('Forest_MC', 'SPECIFICATION Spec\nCONSTANTS\n XMAX=1\n NC=2\n NT=%d\n SHAPES={%s}\nINVARIANTS SameLeaf SameNode SameAnswer FlatOK\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n'
                   % ((2, '1, 2') if c.thorough else (1, '1, 2, 3, 4')), must=10000)
    T = tc.Trees(c, 'hard')
    def dist(nc, peaked=False):
        def leaf():
            w = [rng.choice([0, 0, 1, 2, 3, 5]) for _ in range(nc)]
            if rng.random() < 0.3: w = [0] * nc
            if sum(w) == 0: w[rng.randrange(nc)] = 1
            return [v / sum(w) for v in w]
        return leaf
    n = 110 if c.thorough else 26
    for i in range(n):
        nc = rng.choice([2, 2, 3, 3, 4, 5, 10]); nf = rng.choice([1, 2, 3, 5, 8])
        nt = rng.choice([1, 1, 2, 3, 4, 6]); depth = rng.choice([1, 2, 3, 4, 5])
        dts = [DT[0]] if i % 3 == 0 else [DT[i % len(DT)]] if i % 3 == 1 else ['int16_t', 'float']
        th = tc.threshold_source(rng, dts[0] if 'float' not in dts else 'int16_t' if dts[0] == 'int16_t' else 'float')
        trees = [tg.rand_tree(rng, depth if rng.random() < 0.85 else 0, nf, th, dist(nc), shape=rng.choice(['random', 'random', 'random', 'left', 'right'])) for _ in range(nt)]
        est = tg.make_estimator(trees, nf, nc, kind=rng.choice(['rf', 'et']) if nt > 1 else rng.choice(['dt', 'rf']), order=rng.choice(['pre', 'pre', 'bfs']))
        T.add(est, nf, nc, dts, queries=10, wrapper=i % 5 == 0, label='struct')
    for i in range(2):       # thresholds between the integers, features of the same size
        tq = lambda: rng.randrange(-40, 41) / 8
        est = tg.make_estimator([tg.rand_tree(rng, 5, 2, tq, dist(3), p_leaf=.05) for _ in range(1 + i)], 2, 3)
        T.add(est, 2, 3, ['float'], queries=16, wrapper=True, label='fractions')
    # special shapes: single leaf, many features, many classes, many trees, deep chains, many leaves
    thi = tc.threshold_source(rng, 'int16_t')
    S = lambda nf, nc, d, shape='random', pl=0.25: tg.rand_tree(rng, d, nf, thi, dist(nc), pl, shape)
    T.add(tg.make_estimator([S(3, 3, 0)], 3, 3), 3, 3, ['int16_t', 'float'], queries=4, label='one-leaf', wrapper=True)
    T.add(tg.make_estimator([S(3, 3, 0), S(3, 3, 2), S(3, 3, 0)], 3, 3), 3, 3, ['int16_t'], queries=6, label='leafs-in-forest')
    T.add(tg.make_estimator([S(127, 2, 5), S(127, 2, 4)], 127, 2), 127, 2, ['int16_t'], queries=6, label='127-features')
    T.add(tg.make_estimator([S(300, 3, 5), S(300, 3, 4)], 300, 3), 300, 3, ['int16_t'], queries=6, label='300-features')
    T.add(tg.make_estimator([S(4, 30, 4) for _ in range(5)], 4, 30), 4, 30, ['int16_t'], queries=10, label='30-classes')
    T.add(tg.make_estimator([S(4, 45, 4) for _ in range(5)], 4, 45), 4, 45, ['int16_t'], queries=6, label='45-classes')
    T.add(tg.make_estimator([S(4, 5, 3) for _ in range(60)], 4, 5), 4, 5, ['int16_t'], queries=12, label='60-trees')
    T.add(tg.make_estimator([S(4, 3, 14, 'right')], 4, 3), 4, 3, ['int16_t'], queries=10, label='deep-right')
    T.add(tg.make_estimator([S(4, 3, 14, 'left')], 4, 3), 4, 3, ['int16_t'], queries=10, label='deep-left')
    T.add(tg.make_estimator([S(6, 9, 7, 'random', 0.03) for _ in range(3)], 6, 9, order='bfs'), 6, 9, ['int16_t', 'int32_t'], queries=12, label='bushy-bfs')
    # counts beyond the small integer types
    for nt in (130, 260): T.add(tg.make_estimator([S(2, 3, 1, pl=0) for _ in range(nt)] , 2, 3), 2, 3, ['int16_t'], queries=6, label='%d-trees' % nt)
    one = lambda nt: [('node', 0, 0.5, ('leaf', [1.0, 0.0]), ('leaf', [0.0, 1.0])) for _ in range(nt)]
    for nt in (129, 300): T.add(tg.make_estimator(one(nt), 1, 2), 1, 2, ['int16_t', 'int8_t'], queries=4, label='%d-unanimous' % nt)
    big = [tg.rand_tree(rng, 8, 4, thi, dist(3), 0.0) for _ in range(131)]
    T.add(tg.make_estimator(big, 4, 3), 4, 3, ['int16_t'], queries=14, label='33000-nodes', methods=('loadable',), csv=False)
    T.add(tg.make_estimator([S(3, 200, 7, pl=0.02) for _ in range(3)], 3, 200), 3, 200, ['int16_t', 'float'], queries=8, label='200-classes')
    # scales far from one for float features
    for e in ([-18, 9] if not c.thorough else [-25, -18, -10, 9, 14]):
        f = 2.0 ** e
        def ths(): return (rng.randrange(-64, 65) + rng.choice([0, .5, .25, 1/1024])) * f
        tr = [tg.rand_tree(rng, 3, 2, ths, dist(3)) for _ in range(3)]
        T.add(tg.make_estimator(tr, 2, 3), 2, 3, ['float'], queries=12, label='scale2^%d' % e, shift=-e, csv=False)
    # genuinely fitted ensembles
    for i in range(16 if c.thorough else 5):
        kind = ['dt', 'rf', 'et', 'dt', 'rf'][i % 5]; nc = rng.choice([2, 3, 4]); nf = rng.choice([2, 4])
        kw = dict(max_leaf_nodes=rng.choice([4, 9])) if i % 5 in (3, 4) else {}
        integer = i % 2 == 0
        est = tc.fitted(rng, kind, True, nf, nc, None if i % 3 == 0 and kind == 'dt' else 4, integer=integer, **kw)
        if not tc.representable(est): continue
        T.add(est, nf, nc, ['int16_t', 'float'] if integer else ['float'], queries=12, wrapper=i < 2, label='fitted-' + kind)
    T.run()
    c.notes['dtypes'] = DT

vf.main('C01', check, assumptions=['floats are compared exactly through their binary expansion; %f / %a printing of the C library is trusted',
        'the majority rule is the one stated (majority of per-tree argmax), not scikit-learn forest averaging'])
