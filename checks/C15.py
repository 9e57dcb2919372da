import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, extrun
from fractions import Fraction
CS = 4096
def check(c):
    rng = c.rng
    cfg = 'INIT Init\nNEXT Next\nINVARIANTS SameOutput Represents\nPROPERTY Isolated\nCONSTANTS\n COEF={0,1,2}\n XS={0,1,3}\n DEPTH=%d\n STAGES=%d\nCHECK_DEADLOCK FALSE\n'
    c.design_check('Iir_MC', cfg % (3, 1), must=1000)
    if c.thorough: c.design_check('Iir_MC', cfg % (4, 2), must=1000)
    b = c.cc(os.path.join(vf.HARNESS, 'iir.c'))
    exact = []; real = []
    def sec(): return [rng.randrange(-4, 5) for _ in range(3)] + [rng.choice([-1, 0, 0, 1]), rng.choice([-1, 0, 0, 1])]
    def six(s): return s[:3] + [1] + s[3:]
    # exact: small integers; the definition is also run here only to stop before single precision would round
    for i in range(160 if c.thorough else 50):
        nfil = rng.choice([1, 1, 2, 3, 5]); stages = rng.choice([1, 1, 2, 3, 4, 8]); L = rng.choice([10, 40, 120])
        F = []; cmds = []; amp = rng.choice([0, 0, -60, -40, -20, 40, 80])      # the equation is linear: the same session at another amplitude
        if i in (6, 7, 8, 9): nfil = 1; stages = [43, 130, 260, 300][i - 6]; L = 12
        for f in range(nfil):
            if stages > 8:                                                 # long cascades: gains and delays, with some two-tap sections
                sos = [rng.choice([[1, 0, 0, 0, 0], [-1, 0, 0, 0, 0], [1, 0, 0, 0, 0], [0, 1, 0, 0, 0]] if k % 20 else [[1, 1, 0, 0, 0], [1, 0, -1, 0, 0], [1, 2, 0, -1, 0]]) for k in range(stages)]
                for k in range(stages):
                    if sos[k] == [0, 1, 0, 0, 0] and sum(q == sos[k] for q in sos[:k]) >= 3: sos[k] = [-1, 0, 0, 0, 0]
            else: sos = [sec() for _ in range(stages if rng.random() < .7 else rng.choice([1, 2]))]
            if i % 5 == 0 and stages <= 8: sos = [sec()[:3] + [0, 0] for _ in sos]          # FIR: long histories stay small
            F.append([sos, [[0] * 4 for _ in sos], False]); cmds.append('n %d %d %s' % (f, len(sos), ' '.join(str(v) for s in sos for v in six(s))))
        burst = rng.random() < .4; f = 0
        for t in range(L):
            if not burst or rng.random() < .2: f = rng.randrange(nfil)
            if F[f][2]: continue
            x = rng.choice([0, 0, 1, -1, rng.randrange(-20, 21)]) if t else 1
            y = x; top = 0
            for s, m in zip(F[f][0], F[f][1]):
                o = s[0] * y + s[1] * m[0] + s[2] * m[1] - s[3] * m[2] - s[4] * m[3]; top = max(top, abs(o), abs(y)); m[:] = [y, m[0], o, m[2]]; y = o
            if top > 2**19: F[f][2] = True; continue
            cmds.append('f %d %s' % (f, (x * 2.0**amp).hex()))
        exact.append(dict(id='exact-%d' % i, cmds=cmds, sos=[x[0] for x in F], amp=amp))
    for k in (1, 2, 3, 4, 5, 8, 43, 64, 130, 257, 10923, 16384):
        exact.append(dict(id='check-%d' % k, sos=[], amp=0, cmds=['c %d %d %d %d %d' % (a, s, 4 * k + ds, co, 6 * k + dc) for a in (k, k - 1, 0, -1, k + 1) for s in (0, 1) for co in (0, 1) for ds in (0, 1, -1, -4, 4) for dc in (0, -1, 1, 6, -6)]))
    for s, ev in zip(exact, c.run_sessions(b, exact)):
        out = []
        for e in ev:
            if e['op'] == 'new': e['sos'] = s['sos'][e['f']]
            elif e['op'] == 'feed': e['x'], e['y'] = vf.scaled(e['x'], Fraction(2)**-s['amp']), vf.scaled(e['y'], Fraction(2)**-s['amp'])
            out.append(e)
        s['ev'] = out; del s['sos'], s['amp']
    # real filters: every stage of a cascade also runs alone, in a chain
    import numpy, scipy.signal
    numpy.seterr(all='ignore')
    for i in range(60 if c.thorough else 20):
        order = rng.choice([1, 2, 3, 4, 6, 8]); kind = rng.choice(['lowpass', 'highpass', 'bandpass'])
        wn = rng.uniform(0.05, 0.6) if kind != 'bandpass' else sorted([rng.uniform(0.05, 0.4), rng.uniform(0.5, 0.9)])
        sos = scipy.signal.butter(order, wn, kind, output='sos') if rng.random() < .6 else scipy.signal.cheby1(order, 1, wn, kind, output='sos')
        q = [[round(v * CS) for v in numpy.delete(r, 3)] for r in sos]
        if max(abs(v) for r in q for v in r) > 4 * CS: continue
        k = len(q); cmds = ['n 0 %d %s' % (k, ' '.join((v / CS).hex() for r in q for v in six([*r[:3]] + r[3:]) for v in [v if v != 1 else CS]))]
        # six() puts a literal 1 for a0; scale it so that it is exactly one
        cmds = ['n 0 %d %s' % (k, ' '.join(' '.join((v / CS).hex() for v in r[:3] + [CS] + r[3:]) for r in q))]
        for j, r in enumerate(q): cmds.append('n %d 1 %s' % (j + 1, ' '.join((v / CS).hex() for v in r[:3] + [CS] + r[3:])))
        mode = rng.choice(['noise', 'step', 'impulse', 'sine', 'late']); n = rng.choice([60, 150]); x = []
        for t in range(n):
            v = {'noise': rng.uniform(-1, 1), 'step': 1.0, 'impulse': float(t == 0), 'sine': numpy.sin(0.3 * t), 'late': float(t > 40)}[mode]
            x.append(round(float(v) * 4096) / 4096)
        real.append((k, q, cmds, x, i))
    sess = []
    for k, q, cmds, x, i in real:
        # samples go in one at a time; the chain needs outputs of the earlier stage, so it is run afterwards from them
        sess.append(dict(id='real-%d' % i, cmds=cmds + ['f 0 %s' % v.hex() for v in x], k=k, q=q, x=x))
    res = c.run_sessions(b, sess); cur = [[float(v) for v in s['x']] for s in sess]; chain = [[] for _ in sess]
    for j in range(8):
        todo = [n for n, s in enumerate(sess) if s['k'] > j]
        ss = [dict(cmds=[sess[n]['cmds'][0].replace('n 0', 'n 99', 1) if 0 else sess[n]['cmds'][j + 1]] + ['f %d %s' % (j + 1, v.hex()) for v in cur[n]]) for n in todo]
        for n, ev in zip(todo, c.run_sessions(b, ss)):
            ys = [float.fromhex(e['y']) if e['op'] == 'feed' and 'n' not in e['y'] else float('nan') for e in ev if e['op'] == 'feed']
            chain[n].append((cur[n], ys, [e for e in ev if e['op'] not in ('feed', 'new')])); cur[n] = ys
    for s, ev, ch in zip(sess, res, chain):
        out = [e for e in ev if e['op'] not in ('feed', 'new')]
        for j, (xs, ys, bad) in enumerate(ch):
            top = max([1] + [abs(v) for v in xs + ys if v == v])
            sc = 8192.0 / top
            out += bad + [dict(op='new', f=j + 1, sos=[s['q'][j]], ret=0)]
            out += [dict(op='step', f=j + 1, x=vf.micro(x * sc, 1), y=vf.micro(y * sc, 1)) for x, y in zip(xs, ys)]
        last = ch[-1][1] if ch else []
        whole = [float.fromhex(e['y']) if 'n' not in e['y'] else float('nan') for e in ev if e['op'] == 'feed']
        out += [dict(op='cascade', f=0, y=vf.micro(a, 100000), chain=vf.micro(z, 100000), tol=3 + int(abs(z) * 3) if z == z else 0) for a, z in zip(whole, last)]
        s['ev'] = out
        for key in ('k', 'q', 'x'): del s[key]
    # the extension: whole signals
    calls = []; meta = []
    for i in range(80 if c.thorough else 30):
        sos = [sec() for _ in range(rng.choice([1, 2, 3]))]; mem = [[0] * 4 for _ in sos]; xs = []
        for t in range(rng.choice([0, 1, 5, 30])):
            x = rng.randrange(-9, 10); y = x; top = 0
            for s, m in zip(sos, mem):
                o = s[0] * y + s[1] * m[0] + s[2] * m[1] - s[3] * m[2] - s[4] * m[3]; top = max(top, abs(o)); m[:] = [y, m[0], o, m[2]]; y = o
            if top > 2**19: break
            xs.append(x)
        calls.append(('iirfilter', [extrun.arr([six(s) for s in sos], rng.choice(['float32', 'float64', 'int64'])), extrun.arr(xs, rng.choice(['float32', 'float64', 'int32']))])); meta.append((sos, xs))
    for sh in [(2, 5), (1, 7), (3, 3), (6,), (0, 6), (1, 2, 6), (4, 3), (2, 12), (1, 5)]:
        calls.append(('iirfilter', [extrun.arr(numpy.ones(int(numpy.prod(sh))).reshape(sh)), extrun.arr([1.0, 0.0])])); meta.append(None)
    calls.append(('iirfilter', [extrun.arr([[1.0, 0, 0, 1, 0, 0]]), extrun.arr([[1.0, 2.0]])])); meta.append(None)
    ext = dict(id='extension', ev=[])
    for m, r in zip(meta, extrun.call(c, 'eml_signal', calls)):
        if 'crash' in r: ext['ev'].append(dict(op='crash', why=r['crash']))
        elif m is None: ext['ev'].append(dict(op='reject', raised='raised' in r))
        elif 'raised' in r: ext['ev'].append(dict(op='raised', why=r['raised']))
        else: ext['ev'].append(dict(op='array', sos=m[0], x=m[1], y=[vf.scaled(v) for v in r['y']]))
    c.judge('IirTrace', exact + sess + [ext])
vf.main('C15', check, assumptions=['real-valued filters are judged stage by stage to about 1e-3 of the largest sample, integer filters exactly'])
