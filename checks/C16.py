import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, extrun
S = 100000
def roots(M): return dict(M=M, c=[round(S * math.cos(2 * math.pi * i / M)) for i in range(M)], s=[round(S * math.sin(2 * math.pi * i / M)) for i in range(M)])
def check(c):
    rng = c.rng
    cfg = 'INIT Init\nNEXT Next\nINVARIANTS Primitive Reversed Blocks Involution\nCONSTANTS\n N=%d\n W=%d\n XS=%s\nCHECK_DEADLOCK FALSE\n'
    for n, w, xs in [(1, 1, '{0,1,5}'), (2, 16, '{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16}'), (4, 4, '{0,1,2,5,9,16}'), (8, 2, '{0,1,5}')] + ([(16, 3, '{0,1}'), (4, 13, '{0,1,2,3,4,5,6,7,8,9,10,11,12}'), (8, 8, '{0,3,7,16}')] if c.thorough else []):
        c.design_check('Fft_MC', cfg % (n, w, xs), must=5)
    b = c.cc(os.path.join(vf.HARNESS, 'fft.c'))
    sess = []
    def xcmd(tid, n, pts, ks=None): return 'x %d %d %d %s %s' % (tid, n, len(pts), ' '.join('%d %d %d' % p for p in pts), '-1' if ks is None else '%d %s' % (len(ks), ' '.join(map(str, ks))))
    def pts(n, amp, m=None, real=False):
        pos = range(n) if m is None else sorted(rng.sample(range(n), m))
        return [(p, rng.randrange(-amp, amp + 1), 0 if real else rng.randrange(-amp, amp + 1)) for p in pos]
    def add(id, M, cmds, meta): sess.append(dict(id=id, cmds=cmds, meta=meta, **roots(M)))
    # dense inputs, several tables alive at once, any order of transforms
    for i in range(60 if c.thorough else 22):
        sizes = [rng.choice([1, 2, 4, 8, 16, 32]) for _ in range(3)] + [rng.choice([4, 8, 64])]
        if i % 6 == 0: sizes.append(256)
        M = max(sizes); cmds = ['t %d %d %d' % (j, n // 2, n) for j, n in enumerate(sizes)]; meta = []
        for _ in range(10):
            j = rng.randrange(len(sizes)); n = sizes[j]; ks = None
            if n > 64: ks = rng.sample(range(n), 40); P = pts(n, 20)
            else: P = pts(n, rng.choice([1, 9, 60]))
            if rng.random() < .25:
                n2 = rng.choice([x for x in [0, 1, 2, 3, 5, 6, 7, 12, 15, 17, 24, 31, 33, 48, 63, 65, 100, 8, 16, 4] if x != n]); n = n2; P = pts(n, 9); ks = []
                if n in (x for x in sizes if x // 2 == sizes[j] // 2) and n & (n - 1) == 0: continue
                if n and n & (n - 1) == 0 and n // 2 == sizes[j] // 2: continue
            cmds.append(xcmd(j, n, P, ks)); meta.append(P)
        add('dense-%d' % i, M, cmds, meta)
    # every unit impulse of the small lengths: the whole matrix of the transform
    for n in [1, 2, 4, 8, 16, 32] + ([64] if c.thorough else []):
        P = [[(p, 1, 0)] for p in range(n)] + [[(p, 0, 1)] for p in range(n)]
        add('matrix-%d' % n, n, ['t 0 %d %d' % (n // 2, n)] + [xcmd(0, n, q) for q in P], P)
    # long transforms of sparse inputs whose angles are multiples of a coarse one
    for n in [128, 256, 512, 1024, 4096, 32768, 65536, 131072]:
        M = 64; cmds = ['t 0 %d %d' % (n // 2, n)]; meta = []; lg = n.bit_length() - 1
        for _ in range(12 if c.thorough else 5):
            a = rng.randrange(0, lg + 1); u = rng.randrange(0, max(1, n >> a))
            P = [((u << a) % n, rng.randrange(-30, 31), rng.randrange(-30, 31))]
            step = max(0, lg - 6 - a); ks = sorted({(v << step) % n for v in [0, 1, 2, 3, 63, 64] + [rng.randrange(0, max(1, n >> step)) for _ in range(30)]})
            cmds.append(xcmd(0, n, P, ks)); meta.append(P)
        # coarse positions, every kind of bin
        for _ in range(4):
            P = [(p, rng.randrange(-30, 31), rng.randrange(-30, 31)) for p in sorted(rng.sample(range(0, n, n // 64), rng.choice([1, 3, 20])))]
            ks = sorted({0, 1, n - 1, n // 2, n // 2 - 1, n // 2 + 1, n // 4} | {rng.randrange(n) for _ in range(40)})
            cmds.append(xcmd(0, n, P, ks)); meta.append(P)
        add('long-%d' % n, M, cmds, meta)
    # lengths and tables that do not go together
    cmds = []; meta = []; tid = 0
    for ln, fill in [(0, 1), (0, 0), (1, 2), (2, 4), (4, 8), (8, 16), (3, 6), (4, 16), (8, 8), (2, 8), (6, 12), (1, 3), (5, 11), (16, 32), (0, 2), (1, 1), (1, 4)]:
        cmds.append('t %d %d %d' % (tid, ln, fill))
        for n in [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 24, 31, 32, 33, 64, 96]:
            if n and n & (n - 1) == 0 and ln == n // 2: continue         # valid lengths are above (here a table may be filled for something else)
            P = pts(n, 5); cmds.append(xcmd(tid, n, P, [])); meta.append(P)
        tid += 1
    add('mismatch', 4, cmds, meta)
    for s, ev in zip(sess, c.run_sessions(b, sess, timeout=60)):
        it = iter(s.pop('meta')); out = [dict(op='roots')]
        for e in ev:
            if e['op'] == 'dft':
                P = next(it); o = e.pop('out')
                e.update(pos=[p[0] for p in P], re=[p[1] for p in P], im=[p[2] for p in P], ks=[x[0] for x in o], outre=[vf.micro(x[1], S) for x in o], outim=[vf.micro(x[2], S) for x in o])
            out.append(e)
        s['ev'] = out; del s['cmds']
    calls = []; meta = []
    for n in [1, 2, 4, 8, 16, 32, 64, 16, 8, 128, 3, 5, 6, 12, 20, 63, 65, 100, 0]:
        P = [(p, rng.randrange(-40, 41), 0) for p in range(n)]
        calls.append(('rfft', [extrun.arr([p[1] for p in P], rng.choice(['float32', 'float64', 'int32']))])); meta.append((n, P))
    ext = dict(id='extension', ev=[dict(op='roots')], **roots(128))
    for (n, P), r in zip(meta, extrun.call(c, 'eml_audio', calls)):
        if 'crash' in r: ext['ev'].append(dict(op='crash', why=r['crash'])); continue
        y = r.get('y', []); ks = rng.sample(range(n), min(n, 40))
        if len(y) < n: ks = []
        ev = dict(op='real', n=n, raised='raised' in r, pos=[p[0] for p in P], re=[p[1] for p in P], im=[0] * n, ks=ks, outre=[vf.micro(y[k], S) for k in ks] if n <= 40 or not y else None)
        if ev['outre'] is None: ev['outre'] = [vf.micro(v, S) for v in y]; ev['ks'] = list(range(n))
        else: ev['outre'] = [vf.micro(v, S) for v in y]; ev['ks'] = list(range(len(y)))
        ext['ev'].append(ev)
    c.judge('FftTrace', sess + [ext])
vf.main('C16', check, assumptions=['outputs judged to 2e-5 of the summed magnitude of the input', 'transforms longer than 256: sparse inputs'])
