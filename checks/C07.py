import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, numpy, nets, cmodels
Q = 4096
def sim(W, B, acts, x):
    """float evaluation, only used to keep numbers inside the range where the judge is exact: (largest sum of magnitudes, output)"""
    top = 0; v = numpy.array(x, dtype=float)
    for w, b, a in zip(W, B, acts):
        w = numpy.array(w, dtype=float); b = numpy.array(b, dtype=float)
        top = max(top, float((numpy.abs(v) @ numpy.abs(w) + numpy.abs(b)).max()))
        z = v @ w + b
        if a == 'relu': v = numpy.maximum(z, 0)
        elif a == 'tanh': v = numpy.tanh(z)
        elif a == 'logistic': v = 1 / (1 + numpy.exp(-numpy.clip(z, -60, 60)))
        elif a == 'softmax': e = numpy.exp(numpy.clip(z - z.max(), -60, 0)); v = e / e.sum()
        else: v = z
    return top, v
def check(c):
    rng = c.rng
    import emlearn
    c.design_check('NetExp_MC', 'INIT Init\nNEXT Next\nINVARIANTS Falling Multiplies Anchors Slope Symmetric Inverse SumsToOne TwoClasses FineAgrees FineAnchors FineSlope\nCONSTANT STEP=%d\nCHECK_DEADLOCK FALSE\n' % (1 if c.thorough else 7), must=1000)
    cfg = 'INIT Init\nNEXT Next\nINVARIANT Result\nCONSTANTS\n WVALS={0,1,2}\n XVALS={0,1}\n SET=%d\nCHECK_DEADLOCK FALSE\n'
    c.design_check('Net_MC', cfg % 1, must=1000)
    if c.thorough: c.design_check('Net_MC', cfg % 2, must=1000)
    specs = []      # dict(id, sizes, acts, W, B (integers), WS, BS, S, src, xs)
    def mat(i, o, lo, hi, dens=1.0): return [[rng.randrange(lo, hi + 1) if rng.random() < dens else 0 for _ in range(o)] for _ in range(i)]
    def make(id, sizes, acts, exact, src, dens=1.0, amp=3, shift=0, ties=False, nx=8):
        W = [mat(i, o, -amp, amp, dens) for i, o in zip(sizes, sizes[1:])] if exact else [mat(i, o, -24, 24, dens) for i, o in zip(sizes, sizes[1:])]
        B = [[rng.randrange(-amp, amp + 1) if exact else rng.randrange(-32, 33) for _ in range(o)] for o in sizes[1:]]
        if ties and sizes[-1] > 1:      # equal outputs: equal columns
            a, b = rng.sample(range(sizes[-1]), 2)
            for r in W[-1]: r[b] = r[a]
            B[-1][b] = B[-1][a]
            if rng.random() < .5:
                for r in W[-1]: r[:] = [0] * sizes[-1]
                B[-1] = [2] * sizes[-1]
        WS = BS = 1 if exact else 16; S = 1 if exact else Q
        xs = []
        for _ in range(nx * 3):
            if len(xs) == nx: break
            x = [rng.choice([0, 1, -1, rng.randrange(-9, 10)]) for _ in range(sizes[0])] if exact else [rng.randrange(-48, 49) * (Q // 16) for _ in range(sizes[0])]
            top, _ = sim([numpy.array(w) / WS for w in W], [numpy.array(b) / BS for b in B], acts, [v / S for v in x])
            if (exact and top < 2**22) or (not exact and top < 2000): xs.append(x)
            elif len(xs) == 0 and rng.random() < .3: xs.append([0] * sizes[0])
        xs = [x for x in xs if sim([numpy.array(w) / WS for w in W], [numpy.array(b) / BS for b in B], acts, [v / S for v in x])[0] < (2**22 if exact else 2000)]
        if not xs: return
        specs.append(dict(id=id, sizes=sizes, acts=acts, W=W, B=B, WS=WS, BS=BS, S=S, src=src, xs=xs, shift=shift))
    R = 3 if c.thorough else 1
    for i in range(30 * R):
        hid = [rng.choice([1, 2, 3, 4, 5, 8]) for _ in range(rng.choice([1, 1, 2, 3, 4]))]; nin = rng.choice([1, 2, 3, 5, 12]); kind = i % 3
        act = ['relu', 'identity', 'relu', 'tanh', 'logistic'][i % 5]
        exact = act in ('relu', 'identity') and rng.random() < .6
        if kind == 0: out = 1; oa = 'logistic'
        elif kind == 1: out = rng.choice([3, 4, 7, 12]); oa = 'softmax'
        else: out = rng.choice([1, 1, 2, 3]); oa = 'identity'
        make('mlp-%d-%s-%s' % (i, act, oa), [nin] + hid + [out], [act] * len(hid) + [oa], exact, 'reg' if kind == 2 else 'cls', dens=rng.choice([1, 1, .5]), ties=i % 4 == 1, shift=rng.choice([0, 0, 14, -6]) if exact else 0)
    for i in range(14 * R):
        hid = [rng.choice([1, 2, 3, 5, 6]) for _ in range(rng.choice([1, 2, 2, 3]))]; nin = rng.choice([1, 2, 4, 9])
        exact = rng.random() < .4
        acts = [rng.choice(['relu', 'identity'] if exact else ['relu', 'identity', 'tanh', 'logistic', 'softmax', 'tanh']) for _ in hid]
        oa = rng.choice(['softmax', 'softmax', 'logistic', 'identity']); out = 1 if oa == 'logistic' else rng.choice([2, 2, 3, 5])
        if oa == 'identity' and rng.random() < .5: out = 1
        make('keras-%d' % i, [nin] + hid + [out], acts + [oa], exact, 'keras', ties=i % 4 == 1)
    # unbounded scores: large integers through softmax
    for i in range(3): make('large-%d' % i, [3, 4, 3], ['relu', 'softmax'], True, 'cls', amp=300)
    # sizes beyond the small integer types
    make('wide-in', [300, 3, 3], ['relu', 'softmax'], True, 'cls', amp=2, nx=3)
    make('wide-hidden', [2, 300, 4], ['relu', 'softmax'], True, 'cls', amp=2, nx=3)
    make('wide-out', [3, 4, 300], ['relu', 'softmax'], True, 'cls', amp=5, nx=3)
    make('wide-both', [260, 260, 3], ['relu', 'softmax'], True, 'cls', amp=2, nx=2, dens=.9)
    make('deep', [2] + [3] * 30 + [3], ['identity'] * 30 + ['softmax'], True, 'cls', amp=1, dens=.35, nx=4)
    make('deep-inline', [2] + [2] * 140 + [3], ['relu'] * 140 + ['identity'], True, 'reg', amp=1, dens=.3, nx=3)
    # exactly on the threshold; activations of a few millions
    specs.append(dict(id='threshold', sizes=[2, 2, 1], acts=['relu', 'logistic'], W=[[[1, 0], [0, 1]], [[1], [-1]]], B=[[0, 0], [0]], WS=1, BS=1, S=1, src='cls', xs=[[3, 3], [0, 0], [-1, -4], [5, 4], [4, 5], [200, 200]], shift=0))
    specs.append(dict(id='threshold-k', sizes=[2, 2, 1], acts=['identity', 'logistic'], W=[[[1, 0], [0, 1]], [[1], [-1]]], B=[[0, 0], [0]], WS=1, BS=1, S=1, src='keras', xs=[[3, 3], [0, 0], [-1, -4], [5, 4], [4, 5]], shift=0))
    for a in ('relu', 'identity'):
        specs.append(dict(id='millions-' + a, sizes=[2, 3, 2], acts=[a, 'identity'], W=[[[500, -500, 1], [499, 1, 0]], [[1, 0], [-1, 1], [2, -3]]], B=[[3, -7, 5], [-2, 11]], WS=1, BS=1, S=1, src='reg', xs=[[4000, 3], [-3999, -70], [2500, 2500], [2001, -2001], [-2000, 4000], [1, 2]], shift=0))
    specs.append(dict(id='millions-k', sizes=[1, 2, 3], acts=['relu', 'softmax'], W=[[[900, -900]], [[1, 0, -1], [-1, 1, 0]]], B=[[0, 0], [-9000, 3, 1]], WS=1, BS=1, S=1, src='keras', xs=[[3500], [-3500], [10], [2000], [0]], shift=0))
    # all outputs far from zero, on either side
    for sign in (-1, 1):
        for src, n in (('keras', 3), ('reg', 4), ('keras', 2)):
            far = sign * rng.choice([1100, 40000, 3000000])
            specs.append(dict(id='far-%s-%d-%d' % (src, n, sign), sizes=[2, 3, n], acts=['relu', 'identity'], W=[[[1, -1, 2], [1, 1, -2]], mat(3, n, -4, 4)], B=[[0, 1, 2], [far + rng.randrange(-30, 31) for _ in range(n)]], WS=1, BS=1, S=1, src=src, xs=[[rng.randrange(-9, 10), rng.randrange(-9, 10)] for _ in range(6)], shift=0))
    sess = []; models = []; jobs = []; meta = []
    live = []
    for s in specs:
        sc = 2.0 ** s['shift']
        W = [numpy.array(w) / s['WS'] for w in s['W']]; B = [numpy.array(b) / s['BS'] for b in s['B']]; W[0] = W[0] / sc
        S = dict(id=s['id'], S=s['S'], WS=s['WS'], BS=s['BS'], layers=[dict(w=w, b=b, act=a) for w, b, a in zip(s['W'], s['B'], s['acts'])], ev=[]); sess.append(S)
        src = nets.keras_net(rng, s['sizes'], s['acts'], W, B) if s['src'] == 'keras' else nets.mlp(s['sizes'], s['acts'][0], W, B, s['src'] == 'cls')
        cls = s['src'] == 'cls' or (s['src'] == 'keras' and s['acts'][-1] != 'identity'); nout = s['sizes'][-1]; npr = max(2, nout)
        X = [[v / s['S'] * sc for v in x] for x in s['xs']]
        code = {}
        try:
            with nets.no_compile():
                cm = emlearn.convert(src, method='loadable', return_type='classifier' if cls or nout > 1 else 'regressor')
            code['loadable'] = cm.save(name='net')
            with nets.no_compile(): ci = emlearn.convert(src, method='inline')
            code['inline'] = ci.save(name='net')
        except Exception as ex: S['ev'].append(dict(op='raised', why=repr(ex)[:300]))
        soft = nout > 1 and s['acts'][-1] == 'softmax'; pr = soft or (nout == 1 and cls)
        body = 'float *f = malloc(sizeof(float)*n); for (int i=0;i<n;i++) f[i]=(float)x[i];\n'
        arr = 'printf(",\\"%%s\\":[", "%s"); for (int i=0;i<%d;i++) printf("%%s\\"%%a\\"", i?",":"", (double)o[i]); printf("]");'
        for m in code:
            b = body + 'printf("\\"cls\\":%d", (int)net_predict(f, n));'
            if m == 'loadable':
                if pr: b += '{ float *o = malloc(sizeof(float)*%d); printf(",\\"pret\\":%%d", (int)eml_net_predict_proba(&net, f, n, o, %d)); %s free(o); }' % (npr, npr, arr % ('p', npr))
                b += '{ float *o = malloc(sizeof(float)*%d); printf(",\\"rret\\":%%d", (int)net_regress(f, n, o, %d)); %s free(o); }' % (nout, nout, arr % ('y', nout))
                if nout == 1: b += '{ float o[1]; o[0] = net_regress1(f, n); %s }' % (arr % ('y1', 1))
                # another instance of the same layers: larger buffers with garbage in them
                b += '{ int k = net.activations_length + 5; EmlNet m2 = net; m2.activations1 = malloc(sizeof(float)*k); m2.activations2 = malloc(sizeof(float)*k); m2.activations_length = k; for (int i=0;i<k;i++) m2.activations1[i] = m2.activations2[i] = NAN; printf(",\\"cls2\\":%d", (int)eml_net_predict(&m2, f, n)); free(m2.activations1); free(m2.activations2); }'
            mid = '%s-%s' % (s['id'], m); models.append(dict(id=mid, code=code[m], body=b + ' free(f);'))
            for x, fx in zip(s['xs'], X): jobs.append((mid, fx)); meta.append((S, s, m, x, cls, nout))
        def out(via, cl=None, p=None, y=None, x=None, ret=0):
            pass
        # the source itself, judged by the same rules: the specification is about the source
        fin = Q if any(a in ('tanh', 'logistic', 'softmax') for a in s['acts']) or s['S'] == Q else 1
        XA = numpy.array(X, dtype='float32' if s['src'] == 'keras' else float)
        with numpy.errstate(all='ignore'):
            raw = src.predict(XA, verbose=0) if s['src'] == 'keras' else (src.predict_proba(XA) if s['src'] == 'cls' else src.predict(XA))
            rawc = src.predict(XA) if s['src'] == 'cls' else None
        raw = numpy.asarray(raw).reshape(len(X), -1)
        for j, x in enumerate(s['xs']):
            if s['src'] == 'cls':
                S['ev'].append(dict(op='proba', via='source', x=x, ret=0, p=[vf.micro(v, Q) for v in raw[j]]))
                S['ev'].append(dict(op='predict', via='source', x=x, cls=int(rawc[j])))
            else: S['ev'].append(dict(op='regress', via='source', x=x, ret=0, y=[vf.micro(v, Q) for v in raw[j]], yi=[vf.scaled(round(float(v), 4)) for v in raw[j]]))
        live.append((s, S, src, X, cls, nout, pr))
    run = cmodels.build(c, models, per=6)
    for (S, s, m, x, cls, nout), r in zip(meta, run(jobs)):
        if 'nocompile' in r or 'crash' in r: S['ev'].append(dict(op='nocompile' if 'nocompile' in r else 'crash', why=str(r)[-300:])); continue
        S['ev'].append(dict(op='predict', via=m, x=x, cls=r['cls']))
        if 'cls2' in r: S['ev'].append(dict(op='predict', via='second-instance', x=x, cls=r['cls2']))
        if 'p' in r: S['ev'].append(dict(op='proba', via=m, x=x, ret=r['pret'], p=[vf.micro(v, Q) if 'n' not in v else vf.NAN for v in r['p']]))
        for key in ('y', 'y1'):
            if key in r: S['ev'].append(dict(op='regress', via=m if key == 'y' else 'single', x=x, ret=r.get('rret', 0), y=[vf.micro(v, Q) if 'n' not in v else vf.NAN for v in r[key]], yi=[vf.scaled(v) for v in r[key]]))
    # the activation functions alone, finer
    am = []; aj = []; asess = []
    for act in ('tanh', 'logistic'):
        S = dict(id='activation-' + act, S=1, WS=1, BS=1, layers=[], ev=[]); sess.append(S)
        try:
            with nets.no_compile(): code = emlearn.convert(nets.mlp([1, 1, 1], act, [[[1.0]], [[1.0]]], [[0.0], [0.0]], False), return_type='regressor').save(name='net')
        except Exception as ex: S['ev'].append(dict(op='raised', why=repr(ex)[:300])); continue
        am.append(dict(id=act, code=code, body='float f[1]; f[0] = (float)x[0]; float y = net_regress1(f, 1); printf("\\"y\\":\\"%a\\"", (double)y);'))
        for z in sorted({0, 1, -1, 60000, -60000, 2000000, -2000000, Q, -Q} | {rng.randrange(-50000, 50001) for _ in range(300 if c.thorough else 80)} | {rng.randrange(-9000, 9001) for _ in range(40)}): aj.append((act, [z / Q])); asess.append((S, act, z))
    for (S, act, z), r in zip(asess, cmodels.build(c, am)(aj)):
        S['ev'].append(dict(op='activation', act=act, x=z, y=vf.micro(r['y'], 2**18) if 'n' not in r['y'] else vf.NAN) if 'y' in r else dict(op='crash', why=str(r)[-200:]))
    # through the Python wrapper
    pickw = [l for l in live if not l[0]['id'].startswith('deep')]
    for s, S, src, X, cls, nout, pr in rng.sample(pickw, min(len(pickw), 40 if c.thorough else 12)):
        XA = numpy.array(X)
        try:
            if cls:
                for m in ('loadable', 'inline'):
                    w = emlearn.convert(src, method=m)
                    got = w.predict(XA)
                    for x, g in zip(s['xs'], got): S['ev'].append(dict(op='predict', via='wrapper-' + m, x=x, cls=int(g)))
                    if m == 'loadable' and pr:
                        for x, g in zip(s['xs'], w.predict_proba(XA)): S['ev'].append(dict(op='proba', via='wrapper', x=x, ret=0, p=[vf.micro(v, Q) for v in g]))
            elif nout == 1:
                w = emlearn.convert(src, return_type='regressor')
                for x, g in zip(s['xs'], w.predict(XA)): S['ev'].append(dict(op='regress', via='wrapper', x=x, ret=0, y=[vf.micro(g, Q)], yi=[vf.scaled(g)]))
        except Exception as ex: S['ev'].append(dict(op='raised', why='wrapper ' + repr(ex)[:300]))
    c.judge('NetTrace', sess)
vf.main('C07', check, assumptions=['integer networks judged exactly; networks with logistic, tanh and softmax layers to the error bound the specification carries along (about 1e-3 and growing with depth)'])
