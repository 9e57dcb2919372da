import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, json, subprocess, threading, queue, tempfile, time
CFG = 'INIT Init\nNEXT Next\nINVARIANTS Consistent DefaultWorks Merged %s\nCONSTANTS\n FAMS={%s}\n CHANGES=%d\n LAYERS=%d\n EMIT=%s\nCHECK_DEADLOCK FALSE\n'
SK = ['trees', 'knn', 'mlp', 'bayes', 'envelope', 'mixture', 'other']
def q(l): return ','.join('"%s"' % x for x in l)
def check(c):
    rng = c.rng; T = c.thorough
    c.design_check('Convert_MC', CFG % ('', q(SK), 3, 0, 'FALSE'), must=15000)
    c.design_check('Convert_MC', CFG % ('', '"keras"', 0, 4 if T else 3, 'FALSE'), must=10000)
    one = c.behaviours('Convert_MC', CFG % ('Emit', q(SK), 1, 0, 'TRUE')); two = [b for b in c.behaviours('Convert_MC', CFG % ('Emit', q(SK), 2, 0, 'TRUE')) if b['n'] == 2]
    kl = c.behaviours('Convert_MC', CFG % ('Emit', '"keras"', 0, 3, 'TRUE'))
    c.notes['configurations_in_spec'] = len(one) + len(two) + len(kl)
    jobs = []; seen = set()
    def add(b, seed=None):
        key = json.dumps([b['fam'], b['cfg']], sort_keys=True)
        if key in seen and seed is None: return
        seen.add(key); jobs.append(dict(fam=b['fam'], cfg=b['cfg'], seed=rng.randrange(2**31) if seed is None else seed))
    for b in one: add(b)
    fam = lambda f, l: [b for b in l if b['fam'] == f]
    for f, n in [('trees', 560), ('knn', 120), ('mlp', 150), ('bayes', 60), ('envelope', 40), ('mixture', 40)]:
        l = fam(f, two); 
        for b in (l if T else rng.sample(l, min(n, len(l)))): add(b)
    # further from the defaults: any combination of documented values, and some of them with one other option
    dims = {f: {o: sorted({b['cfg'][o] for b in fam(f, one)}) for o in fam(f, one)[0]['cfg']} for f in SK if f != 'other'}
    base = {f: fam(f, one)[[b['n'] for b in fam(f, one)].index(0)]['cfg'] for f in dims}
    for f, n in [('trees', 200), ('knn', 40), ('mlp', 80), ('bayes', 30), ('mixture', 15)]:
        for _ in range(n * (5 if T else 1)):
            cfg = dict(base[f])
            for o in cfg:
                if o not in ('via', 'size') and rng.random() < .6: cfg[o] = rng.choice([v for v in dims[f][o] if v not in ('bogus', '-1', '33000')])
            if f == 'trees' and cfg['method'] == 'loadable' and rng.random() < .7: cfg['dtype'] = rng.choice(['none', 'int16_t']); cfg['features'] = rng.choice(['1', '3', '127'])
            if f == 'trees' and cfg['classes'] in ('300', '200') and cfg['features'] == '300': cfg['features'] = '3'
            add(dict(fam=f, cfg=cfg))
    for size in ('far', 'farther'):
        for kw in [dict(method='loadable'), dict(method='loadable', dtype='int16_t'), dict(method='inline', dtype='int16_t')]: add(dict(fam='trees', cfg=dict(base['trees'], size=size, **kw)))
    # Keras models: all short lists of layers that mean something, others sampled
    def kadd(b, **kw): add(dict(fam='keras', cfg=dict(b['cfg'], **kw)))
    dense = lambda b: sum(t.startswith('dense') for t in b['cfg']['tokens'])
    kl = [b for b in kl if b['cfg']['tokens'] and b['cfg']['tokens'][0].startswith('dense') or len(b['cfg']['tokens']) < 2]
    short = [b for b in kl if len(b['cfg']['tokens']) <= 2]; longer = [b for b in kl if len(b['cfg']['tokens']) == 3]
    two_d = [b for b in longer if dense(b) >= 2]
    for b in (short + longer if T else rng.sample(short, 60) + rng.sample(longer, 40) + rng.sample(two_d, 170)):
        kadd(b, method=rng.choice(['none', 'none', 'loadable', 'inline']), outputs=rng.choice(['3', '3', '1', '2', '11']))
    alltok = sorted({t for b in kl for t in b['cfg']['tokens']}); good = [t for t in alltok if t in ('dropout', 'act:linear') or t.startswith('dense:') and t[6:] in ('relu', 'linear', 'sigmoid', 'tanh', 'softmax')]
    for _ in range(300 if T else 60):      # longer ones
        ts = ['dense:relu'] + [rng.choice(good if rng.random() < .85 else alltok) for _ in range(rng.randrange(2, 7))]
        if rng.random() < .5: ts += ['dense:linear', rng.choice(['act:softmax', 'softmax', 'act:sigmoid', 'relu', 'act:tanh'])]
        kadd(dict(cfg=kl[0]['cfg']), tokens=ts, method=rng.choice(['none', 'loadable', 'inline']), outputs=rng.choice(['3', '1', '2']))
    # every kind of layer at every place where it would matter
    for t in alltok:
        for ts in [['dense:linear', t, 'dense:softmax'], ['dense:relu', 'dense:linear', t], ['dense:linear', t, 'dense:linear'], [t, 'dense:relu', 'dense:softmax']]:
            kadd(dict(cfg=kl[0]['cfg']), tokens=ts, method=rng.choice(['none', 'loadable', 'inline']), outputs='3')
    base_k = [b for b in two_d if b['cfg']['tokens'] == ['dense:relu', 'dropout', 'dense:linear']][0]
    for kw in [dict(method='bogus'), dict(returns='regressor', outputs='1'), dict(returns='regressor', outputs='3'), dict(returns='regressor', outputs='1', method='inline'), dict(input='matrix'), dict(input='matrix', method='inline'), dict(input='matrix', returns='regressor', outputs='1')]: kadd(base_k, **kw)
    for t in ('dense:tanh', 'dense:sigmoid', 'dense:linear'): kadd(dict(cfg=dict(base_k['cfg'], tokens=['dense:relu', t])), returns='regressor', outputs='1')
    for i, j in enumerate(jobs): j['job'] = i
    sk = [j for j in jobs if j['fam'] != 'keras']; ke = [j for j in jobs if j['fam'] == 'keras']
    # long ones first
    sk.sort(key=lambda j: -(j['cfg'].get('size', 'small') != 'small') * 3 - (j['cfg'].get('features') == '300') - (j['cfg'].get('items') == '33000') * 3 - (j['fam'] == 'mixture'))
    res = {}
    t_end = time.time() + (2400 if T else 600)
    def worker(todo, wid):
        p = None
        def start():
            d = c.path('w%d-%d' % (wid, len(res)), 'x'); d = os.path.dirname(d)
            return subprocess.Popen([vf.PY, os.path.join(vf.VERIF, 'lib', 'convert_worker.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=d,
                                    env=c.env(EML_REPO=vf.REPO, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', TF_NUM_INTRAOP_THREADS='1', TF_NUM_INTEROP_THREADS='1', TMPDIR=d))
        while True:
            try: j = todo.get_nowait()
            except queue.Empty: break
            if p is None: p = start()
            box = []
            def talk():
                try:
                    p.stdin.write(json.dumps(j) + '\n'); p.stdin.flush(); box.append(p.stdout.readline())
                except OSError: pass
            t = threading.Thread(target=talk); t.start(); t.join(240)
            if t.is_alive(): p.kill(); t.join(); res[j['job']] = dict(op='hang', fam=j['fam'], cfg=j['cfg']); p = None; continue
            if not box or not box[0]:
                res[j['job']] = dict(op='convert', fam=j['fam'], cfg=j['cfg'], outcome='crash', classes=[], floats=[], top=1, low=0, why='rc %s' % p.wait()); p = None; continue
            res[j['job']] = json.loads(box[0])
        if p: p.stdin.close(); p.wait()
    qs, qk = queue.Queue(), queue.Queue()
    for j in sk: qs.put(j)
    for j in ke: qk.put(j)
    def both(first, second):
        return lambda w: (worker(first, w), worker(second, w))
    ths = [threading.Thread(target=both(qk, qs) if w < 3 else both(qs, qs), args=(w,)) for w in range(vf.NCPU)]
    for t in ths: t.start()
    for t in ths: t.join()
    sess = []; lost = {}; count = {}
    for j in jobs:
        e = res.get(j['job'])
        if e is None: raise vf.Broken('no result for %r' % j)
        if e['op'] == 'broken': raise vf.Broken('%r: %s' % (j, e['why']))
        if e['op'] == 'nosource': lost.setdefault(j['fam'], []).append((j['cfg'], e['why'])); continue
        count[(e['fam'], e.get('outcome', e['op']))] = count.get((e['fam'], e.get('outcome', e['op'])), 0) + 1
        cfg = dict(e['cfg']); dev = [o + '=' + str(v) for o, v in cfg.items() if (base.get(e['fam']) or {}).get(o) != v]
        sess.append(dict(id=e['fam'] + ':' + ','.join(str(d) for d in dev)[:150], ev=[e]))
    c.notes['outcomes'] = {'%s %s' % k: v for k, v in sorted(count.items())}
    c.notes['configurations_without_source_model'] = {k: len(v) for k, v in lost.items()}
    if os.environ.get('VF_DEBUG'):
        for k, v in lost.items():
            for x in v[:30]: print('LOST', k, x)
    for f in SK + ['keras']:
        n = sum(v for k, v in count.items() if k[0] == f)
        if n < .7 * sum(j['fam'] == f for j in jobs): raise vf.Broken('too few source models of ' + f + ' ' + str(lost.get(f, [])[:3]))
    bad = c.judge('ConvertTrace', sess)
    if os.environ.get('VF_DEBUG'):
        for s, l, cl in bad: print('BAD', cl, s['id'], s['ev'][0].get('outcome'), s['ev'][0].get('why', '')[:120], s['ev'][0]['cfg'].get('tokens', ''), s['ev'][0]['classes'][:6], s['ev'][0]['floats'][:4])
vf.main('C04', check, assumptions=['rows close to a decision boundary of the source model are not compared', 'numbers are compared with tolerances of the number format used'])
