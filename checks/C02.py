import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, treegen as tg, trees_check as tc

def check(c):
    rng = c.rng
    c.design_check('Forest_MC', 'SPECIFICATION Spec\nCONSTANTS\n XMAX=1\n NC=3\n NT=%d\n SHAPES={%s}\nINVARIANTS SameLeaf SameNode SameAnswer FlatOK\nCHECK_DEADLOCK FALSE\n'
                   % ((2, '1, 2') if c.thorough else (1, '1, 2, 3')), must=5000)
    c.design_check('SoftLevels_MC', 'INIT Init\nNEXT Next\nINVARIANTS Near Monotone Ends Bounds\nCONSTANT ONE = %d\nCHECK_DEADLOCK FALSE\n' % (120 if c.thorough else 24), must=150)
    T = tc.Trees(c, 'soft')
    def dist(nc, one):
        def leaf():
            r = rng.random()
            if r < 0.15:
                w = [0] * nc; w[rng.randrange(nc)] = one
            elif r < 0.3 and one % nc == 0: w = [one // nc] * nc
            else:
                cut = sorted(rng.randrange(one + 1) for _ in range(nc - 1)); w = [b - a for a, b in zip([0] + cut, cut + [one])]
                rng.shuffle(w)
            return [v / one for v in w]
        return leaf
    n = 84 if c.thorough else 21
    for i in range(n):
        bits = 2 + i % 7; one = rng.choice([60, 60, 12, 100, 64])
        nc = rng.choice([2, 2, 3, 4, 5, 10]); nf = rng.choice([1, 2, 3, 6]); nt = rng.choice([1, 1, 2, 3, 5, 8]); depth = rng.choice([1, 2, 3, 4])
        dts = ['int16_t'] if i % 3 else ['int16_t', rng.choice(['float', 'int8_t', 'int32_t', 'uint8_t'])]
        th = tc.threshold_source(rng, 'uint8_t' if 'uint8_t' in dts else 'int16_t')
        trees = [tg.rand_tree(rng, depth if rng.random() < 0.9 else 0, nf, th, dist(nc, one)) for _ in range(nt)]
        est = tg.make_estimator(trees, nf, nc, kind=rng.choice(['rf', 'et']) if nt > 1 else 'dt', order=rng.choice(['pre', 'bfs']))
        est.vf_one = one
        T.add(est, nf, nc, dts, bits=bits, queries=10, wrapper=i % 7 == 0, label='struct-b%d' % bits)
    th = tc.threshold_source(rng, 'int16_t')
    for nc, nt, d, lab in [(30, 3, 4, '30-classes'), (2, 40, 3, '40-trees'), (3, 1, 0, 'one-leaf'), (2, 20, 1, 'stumps')]:
        est = tg.make_estimator([tg.rand_tree(rng, d, 4, th, dist(nc, 60)) for _ in range(nt)], 4, nc); est.vf_one = 60
        T.add(est, 4, nc, ['int16_t'], bits=rng.choice([3, 5, 8]), queries=10, label=lab)
    for nc, nt, d in [(3, 140, 1), (5, 2, 8), (3, 300, 1)]:
        est = tg.make_estimator([tg.rand_tree(rng, d, 4, th, dist(nc, 60), 0.02) for _ in range(nt)], 4, nc); est.vf_one = 60
        T.add(est, 4, nc, ['int16_t'], bits=rng.choice([3, 5, 8]), queries=10, label='%dtrees-depth%d' % (nt, d), methods=('inline', 'loadable') if nt < 200 else ('loadable',))
    # a table of proportions larger than 32768 bytes
    est = tg.make_estimator([tg.rand_tree(rng, 10, 3, lambda: float(rng.randrange(-3000, 3000)), dist(30, 240), p_leaf=0.0) for _ in range(2)], 3, 30); est.vf_one = 240
    T.add(est, 3, 30, ['int16_t'], bits=8, queries=30, label='2000-leaves')
    # every neighbouring pair of levels is in use
    for bits in [8, 7]:
        one = 2 ** bits - 2
        def bal(a, b): return ('leaf', [a / one, 1 - a / one]) if a == b else ('node', 0, float((a + b) // 2), bal(a, (a + b) // 2), bal((a + b) // 2 + 1, b))
        est = tg.make_estimator([bal(0, one)], 1, 2); est.vf_one = one
        s = T.add(est, 1, 2, ['int16_t'], bits=bits, queries=0, label='all-levels-b%d' % bits)
        s['_q']['int16_t'] = [[k] for k in range(one + 1)]
    # so many classes that all proportions of a leaf round to nothing
    for nc, nt, bits in [(20, 1, 2), (30, 3, 3), (6, 2, 2), (25, 1, 4)]:
        one = nc * 4
        def near(nc=nc, one=one):
            w = [4] * nc
            for _ in range(rng.randrange(4)): a, b = rng.sample(range(nc), 2); w[a] -= 1; w[b] += 1
            return [max(v, 0) / one for v in w] if min(w) >= 0 else [1 / nc] * nc
        est = tg.make_estimator([tg.rand_tree(rng, 2, 2, th, near) for _ in range(nt)], 2, nc); est.vf_one = one
        T.add(est, 2, nc, ['int16_t', 'float'], bits=bits, queries=8, label='even-%d-classes' % nc, wrapper=nc == 20)
    # every level boundary of every bit width: stumps over all proportions of a grid
    for bits in ([2, 3, 4, 5, 6, 7, 8] if c.thorough else [2, 5, 8]):
        for one in ([60, 64] if c.thorough else [60]):
            def chain(k):
                return ('leaf', [k / one, 1 - k / one]) if k == one else ('node', 0, float(k), ('leaf', [k / one, 1 - k / one]), chain(k + 1))
            est = tg.make_estimator([chain(0)], 1, 2); est.vf_one = one
            s = T.add(est, 1, 2, ['int16_t'], bits=bits, queries=0, label='levels-b%d' % bits, methods=('inline', 'loadable'))
            s['_q']['int16_t'] = [[k] for k in range(one + 1)]
    T.run()

vf.main('C02', check, assumptions=['a level may be stored as the byte below or above 255*k/n; a proportion exactly half way between two levels may go either way'])
