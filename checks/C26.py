import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, numpy, pandas
CFG = 'INIT Init\nNEXT Next\nINVARIANTS Exact NeverEmpty Kept %s\nCONSTANTS\n MAXN=%d\n VALS={0,1,2%s}\n EMIT=%s\nCHECK_DEADLOCK FALSE\n'
def check(c):
    rng = c.rng
    from emlearn.evaluate.pareto import find_pareto_front
    c.design_check('Pareto_MC', CFG % ('', 4 if not c.thorough else 5, '' if c.thorough else '', 'FALSE'), must=3000)
    beh = c.behaviours('Pareto_MC', CFG % ('Emit', 3, '', 'TRUE')) + (c.behaviours('Pareto_MC', CFG % ('Emit', 4, '', 'TRUE')) if c.thorough else [])
    if len(beh) < 700: raise vf.Broken('too few tables')
    c.notes['tables_from_spec'] = len(beh)
    tables = [[list(r) for r in b] for b in beh]
    for _ in range(3000 if c.thorough else 500):
        n = rng.choice([1, 2, 3, 5, 8, 20, 60]); m = rng.choice([2, 3, 6, 20, 1000])
        k = rng.random()
        if k < 0.2: t = [[i, m - i] for i in range(n)]          # all efficient
        elif k < 0.3: t = [[i, i] for i in range(n)]
        elif k < 0.4: t = [[5, rng.randrange(m)] for i in range(n)]
        else: t = [[rng.randrange(m), rng.randrange(m)] for _ in range(n)]
        if rng.random() < 0.3: t += rng.sample(t, min(len(t), 3))
        if rng.random() < 0.4: rng.shuffle(t)
        tables.append([[a - rng.choice([0, 0, 500]) * 0, b] for a, b in t])
    sess = []
    for i, t in enumerate(tables):
        if i % 25 == 0: sess.append(dict(id='tables-%d' % i, ev=[]))
        if not t: continue
        neg = rng.random() < 0.2; sc = rng.choice([1, 1, 0.25, 2, 0.1])
        rows = [[a - (40 if neg else 0), b - (40 if neg else 0)] for a, b in t]
        cn, pn = rng.choice([(None, None), ('cost', 'score'), ('mean_test_compute', 'mean_test_score'), ('mean_test_score', 'mean_test_accuracy'), ('a b', 'mean_test_f1'), ('c', 'performance')])
        kw = {}
        C, P = 'mean_test_compute', 'mean_test_accuracy'
        if cn: C, P = cn, pn; kw.update(cost_metric=C, performance_metric=P)
        higher = rng.random() < 0.6
        if not higher or rng.random() < 0.3: kw['higher_is_better'] = higher
        scp = rng.choice([1, 0.25, 0.1, 0.5]); num = (lambda x: x) if rng.random() < 0.4 else (lambda x: x * scp)
        hasmin = rng.random() < 0.4; mn = rng.choice([r[1] for r in rows] + [rng.randrange(0, 5)]) if hasmin else 0
        if hasmin: kw['min_performance'] = num(mn)
        df = pandas.DataFrame({C: [r[0] * sc if rng.random() < 2 else 0 for r in rows], 'rowid': list(range(1, len(rows) + 1)), P: [num(r[1]) for r in rows], 'note': ['n%d' % j for j in range(len(rows))]})
        if rng.random() < 0.3: df['score'] = -1.0 if 'score' not in (C, P) else df['score']
        if rng.random() < 0.3 and 'mean_test_score' not in (C, P): df['mean_test_score'] = numpy.arange(len(rows)) * 1.5
        if rng.random() < 0.2: df = df.astype({P: 'float32'}) if num(1) in (1, 0.25, 0.5) else df
        ix = rng.random()
        if ix < 0.2: df.index = [7] * len(rows)
        elif ix < 0.4: df.index = rng.sample(range(1000), len(rows))
        elif ix < 0.5: df.index = ['r%d' % (j % 3) for j in range(len(rows))]
        before = df.copy(deep=True)
        e = dict(op='front', rows=rows, higher=higher, hasmin=hasmin, min=mn)
        try: out = find_pareto_front(df, **kw)
        except Exception as x: sess[-1]['ev'].append(dict(e, op='raised', why=repr(x)[:200])); continue
        ids = [int(v) for v in out['rowid']]
        e.update(kept=ids, columns=list(out.columns) == list(before.columns),
                 contents=all(out[k].tolist() == [before[k].tolist()[j - 1] for j in ids] for k in before.columns) and out.index.tolist() == [before.index.tolist()[j - 1] for j in ids],
                 table=before.equals(df) and list(before.columns) == list(df.columns) and before.index.tolist() == df.index.tolist())
        sess[-1]['ev'].append(e)
    sess = [s for s in sess if s['ev']]
    c.judge('ParetoTrace', sess)
vf.main('C26', check, assumptions=['metrics are finite numbers'])
