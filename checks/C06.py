import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

def check(c):
    rng = c.rng
    cfg = 'INIT Init\nNEXT Next\n%sINVARIANTS Holds SameRule %s\nPROPERTY Grows\nCONSTANTS\n CAP=%d\n K=%d\n DEPTH=%d\n VALS={%s}\n EMIT=%s\n NLAB=2\nCHECK_DEADLOCK FALSE\n'
    cfg = cfg.replace('PROPERTY Grows\n', '')
    c.design_check('Knn_MC', cfg % ('VIEW View\n', '', 4 if c.thorough else 3, 2, 6 if c.thorough else 5, '0, 2', 'FALSE'), must=200)
    # every history of the specification up to a depth, replayed
    beh = []
    for cap, k in [(1, 1), (2, 2)] + ([(3, 1)] if c.thorough else []):
        beh += [(cap, k, h) for h in c.behaviours('Knn_MC', cfg % ('', 'Emit', cap, k, 4 if c.thorough else 3, '0, 2', 'TRUE'))]
    if len(beh) < 500: raise vf.Broken('too few histories: %d' % len(beh))
    lim = 6000 if c.thorough else 900
    if len(beh) > lim: beh = rng.sample(beh, lim)
    b = c.cc(os.path.join(vf.HARNESS, 'knn.c'))
    def cmd(o):
        v = ' '.join(map(str, o['v']))
        return ('a %d %d %s' % (o['label'], len(o['v']), v)) if o['op'] == 'add' else 'p %d %d %s' % (o['d'], len(o['v']), v)
    sessions = []
    for i in range(0, len(beh), 10):      # histories of the specification, ten per process (each starts with init)
        g = beh[i:i + 10]; cmds = []
        for cap, k, h in g: cmds += ['i 1 %d %d 0' % (cap, k)] + [cmd(o) for o in h]
        sessions.append(dict(id='spec-%d' % i, cmds=cmds))
    # long random histories with real sizes
    for i in range(220 if c.thorough else 60):
        nf = rng.choice([1, 2, 3, 7, 40]); cap = rng.choice([1, 2, 5, 12, 30]); k = rng.choice([1, 1, 2, 3, 5]); n0 = rng.choice([0, 0, 0, 1, cap])
        val = (lambda: rng.choice([-32768, 32767, -1, 0, 1])) if rng.random() < 0.3 else (lambda: rng.randrange(-300, 301))
        lab = (lambda: rng.choice([0, 1, 9, -1, 10, 32767, -32768])) if rng.random() < 0.15 else (lambda: rng.randrange(10))
        cmds = ['i %d %d %d %d %s' % (nf, cap, k, n0, ' '.join(' '.join(str(val()) for _ in range(nf)) + ' %d' % lab() for _ in range(n0)))]
        n = n0
        for _ in range(rng.choice([8, 20, 45])):
            r = rng.random()
            if r < 0.62:
                ln = nf if rng.random() < 0.85 else rng.choice([0, nf - 1, nf + 1, nf * 2])
                cmds.append('a %d %d %s' % (lab(), ln, ' '.join(str(val()) for _ in range(ln)))); n = min(cap, n + (ln == nf))
            elif r < 0.94:
                ln = nf if rng.random() < 0.8 else rng.choice([0, nf - 1, nf + 1])
                d = rng.choice([cap, cap, n, n + 1]) if rng.random() < 0.8 else max(0, n - 1)
                cmds.append('p %d %d %s' % (d, ln, ' '.join(str(val()) for _ in range(ln))))
            else: cmds.append('c %d %d %d' % (cap * nf + rng.choice([-1, 0, 1]), cap + rng.choice([-1, 0, 0, 1]), cap + rng.choice([-1, 0, 0, 1])))
        sessions.append(dict(id='random-%d' % i, cmds=cmds))
    # data sets beyond the small integer types
    for nf, cap, k in [(200, 170, 3), (1, 300, 2), (300, 3, 1), (130, 260, 1), (300, 230, 1)]:
        n0 = max(0, cap - 4); v = lambda: ' '.join(str(rng.randrange(-300, 301)) for _ in range(nf))
        cmds = ['i %d %d %d %d %s' % (nf, cap, k, n0, ' '.join(v() + ' %d' % rng.randrange(10) for _ in range(n0)))]
        for i in range(5): cmds.append('a %d %d %s' % (rng.randrange(10), nf, v()))
        cmds.append('p %d %d %s' % (cap, nf, v()))
        for dd in (0, -1, 1, 65536): cmds.append('c %d %d %d' % (cap * nf + dd, cap, cap))
        cmds += ['c %d %d %d' % (cap * nf, cap - 1, cap + 65536), 'c %d %d %d' % (cap * nf, cap + 256, cap - 1)]
        sessions.append(dict(id='size-%dx%d' % (nf, cap), cmds=cmds))
    for s, ev in zip(sessions, c.run_sessions(b, sessions)): s['ev'] = ev
    c.notes['histories_from_spec'] = len(beh)
    for s in sessions: s['labels'] = False
    c.judge('KnnTrace', sessions)

vf.main('C06', check, assumptions=['memory outside the model is observed through AddressSanitizer red zones around exactly sized buffers'])
