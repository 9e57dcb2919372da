import os, sys, warnings
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, treegen as tg, trees_check as tc, cmodels, numpy
from fractions import Fraction
VS = 8
def integer(v):
    v = float(v)
    return int(v) if v == v and abs(v) < 2**30 and v == int(v) else vf.NOINT
def check(c):
    rng = c.rng
    import emlearn
    from emlearn.evaluate import trees as M
    c.design_check('Cost_MC', 'INIT Init\nNEXT Next\nCONSTANTS\n NT=%d\n SHAPES={%s}\nINVARIANTS Counted Bounded Figures\nCHECK_DEADLOCK FALSE\n' % ((2, '1, 2, 3, 4') if c.thorough else (2, '1, 2')), must=2000)
    sess = []; models = []; jobs = []
    n = 120 if c.thorough else 36
    for k in range(n):
        kind = ['hard', 'soft', 'reg'][k % 3]; nc = rng.choice([2, 2, 3, 5]); nf = rng.choice([1, 2, 4]); nt = rng.choice([1, 1, 2, 3, 5]); depth = rng.choice([0, 1, 2, 3, 4, 6])
        if k in (10, 27, 41): nt = rng.choice([101, 130, 300]); depth = rng.choice([1, 2])      # many trees
        if k in (7, 18): nt, depth = 1, 90                                                     # a deep chain
        th = tc.threshold_source(rng, 'int16_t')
        if kind == 'reg': pool = [rng.randrange(-80, 81) / VS for _ in range(rng.choice([2, 5, 40]))]; leaf = lambda: [rng.choice(pool)]
        else:
            def leaf():
                w = [rng.choice([0, 0, 1, 2, 3]) for _ in range(nc)]
                if sum(w) == 0: w[rng.randrange(nc)] = 1
                return [v / sum(w) for v in w]
        fit = k % 6 == 5
        fit = fit and nt < 100 and depth < 90
        if fit: est = tc.fitted(rng, ['dt', 'rf', 'et'][(k // 6) % 3], kind != 'reg', nf, nc, depth or None)
        if fit and not tc.representable(est): fit = False
        if not fit:
            trees = [tg.rand_tree(rng, rng.choice([depth, max(depth - 1, 0), 0 if rng.random() < .2 else depth]), nf, th, leaf, shape=rng.choice(['random', 'random', 'left', 'right'] if depth < 9 else ['left', 'right'])) for _ in range(nt)]
            est = tg.make_estimator(trees, nf, nc, classifier=kind != 'reg', kind=rng.choice(['rf', 'et']) if nt > 1 else 'dt', order=rng.choice(['pre', 'bfs']))
        # leaf identity is all that matters here
        ids = {}
        def values(v):
            if kind == 'hard': return tg.ranks(v)
            return [ids.setdefault(tuple(float(a) for a in v), len(ids))]
        bits = rng.choice([3, 5, 8]) if kind == 'soft' else 0
        s = dict(id='%s-%d%s' % (kind, k, '-fit' if fit else ''), kind=kind, nc=len(est.classes_) if kind != 'reg' else 0, lb=bits, forest=tg.project(est, values), ev=[]); sess.append(s)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            conv = emlearn.convert(est, method='loadable', dtype='int16_t', **({'leaf_bits': bits} if bits else {}))
            inl = emlearn.convert(est, method='inline', dtype=rng.choice(['float', 'int16_t', 'int32_t']), **({'leaf_bits': bits} if bits else {}))
        name = 'm%d' % k
        w = dict(hard=1, soft=s['nc'], reg=4)[kind]
        models.append(dict(id=name, code=conv.save(name=name), body='''printf("\\"nodes\\":%%d,\\"trees\\":%%d,\\"leaves\\":[", (int)%s.n_nodes, (int)%s.n_trees);
            for (int i=0;i<%s.n_leaves;i++) printf("%%s%%d", i?",":"", %s.leaves[i]); printf("]");''' % ((name,) * 4)))
        jobs.append((s, name, w, est, conv, inl, th, nf))
    run = cmodels.build(c, models)
    for k, ((s, name, w, est, conv, inl, th, nf), r) in enumerate(zip(jobs, run([(j[1], []) for j in jobs]))):
        ev = s['ev']
        if 'nodes' not in r: ev.append(dict(op='crash', why=str(r)[:200])); continue
        lv = r['leaves']
        ev.append(dict(op='table', nodes=r['nodes'], trees=r['trees'], leaves=[lv[i:i + w] for i in range(0, len(lv), w)]))
        given = [('converted', conv), ('inline', inl)] + ([] if s['kind'] == 'soft' else [('source', est)])
        for who, m in given:
            def put(which, f, conv=integer, **kw):
                try: v = conv(f())
                except Exception as ex: ev.append(dict(op='raised', which=which, who=who, why=repr(ex)[:200])); return
                ev.append(dict(op='metric', which=which, who=who, v=v, **kw))
            extra = rng.choice([(), (None, None), ([[0] * nf], [0])])
            put('nodes', lambda: M.model_size_nodes(m, *extra)); put('leaves', lambda: M.model_size_leaves(m, *extra))
            put('bytes', lambda: M.model_size_bytes(m, *extra), ns=-1, ls=-1)
            for _ in range(2):
                ns, ls = rng.choice([-1, 0, 6, 7, 8, 12]), rng.choice([-1, 0, 1, 3, 4])
                kw = {}
                if ns != -1: kw['node_size'] = ns
                if ls != -1: kw['leaf_size'] = ls
                put('bytes', lambda: M.model_size_bytes(m, **kw), ns=ns, ls=ls)
        for who, m in [('converted', conv), ('inline', inl), ('source', est)]:
            extra = rng.choice([(), (None, None), ([[0] * nf], [0])])
            put('count', lambda: M.count_trees(m, *extra)); put('diff', lambda: M.tree_depth_difference(m, *extra))
            put('depth', lambda: M.tree_depth_average(m, *extra), conv=lambda v: vf.micro(v, 10000))
            # data: skewed and repeated rows, so that means over rows and over trees differ
            base = tg.queries(rng, est, nf, 'int16_t', 6)
            if who == 'source' and rng.random() >= .5: base = base[:1]
            reps = [rng.choice([1, 1, 2, 7]) for _ in base]
            if len(tg.members(est)) < 100 and k % 4 == 2:       # many rows, the last ones unlike the first ones (an input choice: no verdict depends on it)
                steps = [sum(e.decision_path(numpy.array([q])).sum() for e in tg.members(est)) for q in base]
                base = [q for _, q in sorted(zip(steps, base), key=lambda p: p[0], reverse=rng.random() < .5)]
                reps[0] = rng.choice([1000, 3000]); reps[-1] = 500
            X = [q for q, r in zip(base, reps) for _ in range(r)]
            form = rng.choice(['list', 'array', 'int', 'float32'])
            A = X if form == 'list' else numpy.array(X, dtype=dict(array='float64', int='int32', float32='float32')[form])
            put('compute', lambda: M.compute_cost_estimate(m, A, *rng.choice([(), (None,), ([0] * len(X),)])), conv=lambda v: vf.micro(float(v) * len(X), 1000), X=[[tg.pair(v) for v in q] for q in base], N=reps)
    c.judge('CostTrace', sess)
vf.main('C27', check, assumptions=['rows of soft-voting leaves are distinct after quantisation as stored by the generated model',
     'hard-voting leaves count zero bytes (inline) or one byte (table) by default'])
