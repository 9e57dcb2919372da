import os, sys, warnings
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def isqrt_design(c):
    c.design_check('Isqrt_MC', 'SPECIFICATION Spec\nCONSTANT W = %d\nINVARIANTS Root NoOverflow\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n' % (14 if c.thorough else 10), must=500)

def check(c):
    rng = c.rng
    isqrt_design(c)
    c.design_check('Knn_MC', 'INIT Init\nNEXT Next\nVIEW View\nINVARIANTS Holds SameRule\nCONSTANTS\n CAP=4\n K=%d\n DEPTH=%d\n VALS={0,2,3}\n EMIT=FALSE\n NLAB=3\nCHECK_DEADLOCK FALSE\n' % (rng.choice([2, 3]), 4), must=500)
    b = c.cc(os.path.join(vf.HARNESS, 'knn.c'))
    sessions = []
    def add(nf, cap, k, items, qs, label, key='none'):
        cmds = ['i %d %d %d %d %s' % (nf, cap, k, len(items), ' '.join(' '.join(map(str, v)) + ' %d' % lab for v, lab in items))]
        for q in qs: cmds.append('p %d %d %s' % (rng.choice([cap, len(items), cap + 3]) if cap >= len(items) else len(items), len(q), ' '.join(map(str, q))))
        sessions.append(dict(id='%s-%d' % (label, len(sessions)), key=key, cmds=cmds))
    n = 260 if c.thorough else 70
    for i in range(n):
        nf = rng.choice([1, 1, 2, 3, 5, 12]); cap = rng.choice([1, 2, 3, 5, 8, 8, 20, 33, 60]); ni = cap if rng.random() < 0.6 else rng.randrange(1, cap + 1)
        span = rng.choice([1, 3, 10, 100, 1000])
        nl = rng.choice([2, 3, 10]); v = lambda s=span: rng.randrange(-s, s + 1)
        off = rng.choice([0, 0, 5000, -20000])
        items = [([v() + off for _ in range(nf)], rng.randrange(nl)) for _ in range(ni)]
        mode = rng.random()
        if mode < 0.2: items = [(items[0][0], lab) for _, lab in items]         # all at the same place
        elif mode < 0.35: items.sort()
        elif mode < 0.5: items.sort(reverse=True)
        k = rng.choice([1, 1, 2, 3, 4, 5, ni]); k = max(1, min(k, ni))
        qs = [[v() + off for _ in range(nf)] for _ in range(5)] + [list(items[rng.randrange(ni)][0]) for _ in range(2)]
        add(nf, cap, k, items, qs, 'random')
    # distances over the whole range of int16
    for i in range(40 if c.thorough else 14):
        nf = rng.choice([1, 2, 4, 10]); ni = rng.choice([2, 3, 6]); ex = [-32768, 32767, -32767, 0, 20000, -20000, 32766, 16384, -16384]
        items = [([rng.choice(ex) for _ in range(nf)], rng.randrange(3)) for _ in range(ni)]
        add(nf, ni, rng.randrange(1, ni + 1), items, [[rng.choice(ex) for _ in range(nf)] for _ in range(6)], 'extreme')
    for ni in ([300, 1000] if c.thorough else [150]):
        items = [([rng.randrange(-50, 51), rng.randrange(-50, 51)], rng.randrange(4)) for _ in range(ni)]
        add(2, ni, 7, items, [[rng.randrange(-60, 61), rng.randrange(-60, 61)] for _ in range(4)], 'large')
    # many neighbours: the nearest have one label, the majority another one
    def bands(ni, k, nf=1):
        near = [[rng.randrange(-50, 51)] + [0] * (nf - 1) for _ in range(k // 2 - 15)]; far = [[rng.randrange(60, 1200) * rng.choice([1, -1])] + [0] * (nf - 1) for _ in range(ni - len(near))]
        a, b = rng.sample(range(10), 2); items = [(v, a) for v in near] + [(v, b) for v in far]; rng.shuffle(items); return items
    for nf, ni, k in [(2, 200, 150), (1, 300, 270), (1, 600, 400), (3, 700, 690)]:
        add(nf, ni, k, bands(ni, k, nf), [[rng.randrange(-9, 10)] + [0] * (nf - 1) for _ in range(3)], 'neighbours')
    # data beyond the small integer types: each of the last items is found
    for nf, ni, k in [(300, 8, 3), (1, 300, 1), (70, 500, 1)] + ([(70, 1000, 1), (700, 100, 3)] if c.thorough else []):
        items = [([rng.randrange(-50, 51) for _ in range(nf)], (i // 7) % 10) for i in range(ni)]
        add(nf, ni, k, items, [list(items[i][0]) for i in [ni - 1, ni // 2][:2 if nf * ni < 9999 else 1]], 'size')
    # labels that do not fit the table of votes: they are never counted as another label
    for i in range(12):
        ni = rng.choice([1, 3, 5]); items = [([rng.randrange(-9, 10)], rng.choice([256, 259, -256, 512, 10, 266, -1, 32767, 4096, -32768] + [1] * (i % 3))) for _ in range(ni)]
        add(1, ni, rng.randrange(1, ni + 1), items, [[rng.randrange(-9, 10)] for _ in range(4)], 'labels')
    for s, ev in zip(sessions, c.run_sessions(b, sessions)): s['ev'] = ev
    # the converted scikit-learn estimator
    sys.path.insert(0, vf.REPO)
    import numpy
    from sklearn.neighbors import KNeighborsClassifier
    import emlearn
    for i in range(8 if c.thorough else 3):
        nf = rng.choice([1, 2, 4]); ni = rng.choice([5, 12, 30]); nl = rng.choice([2, 3, 10]); k = rng.choice([1, 3, 5])
        if i == 0: nf, ni, nl, k = 1, 300, 10, 270
        X = numpy.array([[rng.randrange(-200, 201) for _ in range(nf)] for _ in range(ni)]); nl = min(nl, ni)
        y = numpy.array([j % nl for j in range(ni)])
        if i == 0: t = bands(ni, k); X = numpy.array([v for v, _ in t]); y = numpy.unique([l for _, l in t], return_inverse=True)[1]
        est = KNeighborsClassifier(n_neighbors=k).fit(X.astype(float) if i % 2 else X, y)
        Q = [[rng.randrange(-220, 221) if i else rng.randrange(-9, 10) for _ in range(nf)] for _ in range(8)]
        ev = [dict(op='init', nf=nf, cap=ni, k=k, items=X.tolist(), labels=y.tolist())]
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore'); out = emlearn.convert(est).predict(numpy.array(Q))
            if len(out) != len(Q): raise ValueError('%d predictions for %d rows' % (len(out), len(Q)))
            ev += [dict(op='wrapper', v=q, out=int(o)) for q, o in zip(Q, out)]
        except Exception as ex: ev.append(dict(op='refused', why=repr(ex)[:200]))
        sessions.append(dict(id='wrapper-%d' % i, ev=ev))
    for s in sessions: s['labels'] = True
    c.judge('KnnTrace', sessions)

if __name__ == '__main__':
    vf.main('C05', check, assumptions=['distances compare at integer resolution (integer square root); equal integer distances may be ordered either way'])
