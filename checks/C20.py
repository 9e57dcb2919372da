import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
CFG = 'INIT Init\nNEXT Next\n%sINVARIANTS Shape %s\n%sCONSTANTS\n DEPTH=%d\n EMIT=%s\n MAXD=%d\n POKES={%s}\nCHECK_DEADLOCK FALSE\n'

def cmd(o):
    k = o['op']
    if k == 'init': return 'init %d 2 %d %d 0 %d %d' % (o['a'], o['cols'], o['rows'], o['vs'], o['len'])
    if k == 'shift': return 'shift %d %d' % (o['a'], o['s'])
    if k == 'copy': return 'copy %d %d %d' % (o['a'], o['s'], o['b'])
    if k == 'fill': return 'fill %d %d 0' % (o['a'], o['v'])
    if k == 'put': return 'put %d %d %d %d' % (o['a'], o['col'], o['row'], o['v'])
    return 'sum %d' % o['a']

def check(c):
    rng = c.rng
    c.design_check('Array_MC', CFG % ('VIEW View\n', '', 'PROPERTIES Frame ShiftRule CopyRule\n', 4 if c.thorough else 3, 'FALSE', 2, '0, 2'), must=300)
    beh = c.behaviours('Array_MC', CFG % ('', 'Emit', '', 3, 'TRUE', 2 if c.thorough else 1, '0, 1, 2' if c.thorough else '1'))
    lim = 8000 if c.thorough else 1500
    total = len(beh)
    if total < 500: raise vf.Broken('too few histories %d' % total)
    if total > lim: beh = rng.sample(beh, lim)
    b = c.cc(os.path.join(vf.HARNESS, 'arrays.c'))
    # each history needs fresh arrays, so one process each would be slow: pack by re-running init on array ids
    sessions = [dict(id='spec-%d' % i, cmds=[cmd(o) for o in h]) for i, h in enumerate(beh)]
    big = [-2**31, 2**31 - 1, -2**31 + 1, 2**30, 46341, -1]
    for i in range(400 if c.thorough else 110):
        cmds = []; dims = {}
        vs = rng.choice([1, 2, 2, 4, 8])
        for a in (1, 2, 3):
            cols = rng.choice([1, 2, 3, 5]) if a == 1 or rng.random() < 0.3 else dims[1][0]
            rows = rng.choice([1, 2, 3, 4, 7, 0] if a > 1 else [2, 3, 5, 9]); v = vs if rng.random() < 0.85 else rng.choice([1, 2, 4, 8])
            cmds.append('init %d 2 %d %d 0 %d %d' % (a, cols, rows, v, cols * rows * v + rng.choice([0, 0, 5]))); dims[a] = (cols, rows, v)
        for _ in range(rng.choice([8, 25, 50])):
            a = rng.choice([1, 1, 2, 3]); C, R, V = dims[a]; r = rng.random()
            if r < 0.25: cmds.append('shift %d %d' % (a, rng.choice([-rng.randrange(0, R + 1), -rng.randrange(0, R + 1), -R - 1, 1, rng.choice(big)])))
            elif r < 0.55:
                o = rng.choice([1, 2, 3])
                if o != a: cmds.append('copy %d %d %d' % (a, rng.choice([max(0, R - dims[o][1]), rng.randrange(0, R + 2), rng.randrange(0, R + 1), -1, rng.choice(big)]), o))
            elif r < 0.75: cmds.append('put %d %d %d %d' % (a, rng.choice([rng.randrange(C), rng.randrange(C), C, -1, C - 1, 0]), rng.choice([rng.randrange(max(1, R)), rng.randrange(max(1, R)), R, -1, R - 1, rng.choice(big[:2])]), rng.randrange(-100, 101)))
            elif r < 0.83: cmds.append('fill %d %d %d' % (a, rng.choice([rng.randrange(-300, 301), 32767, -32768]) if V == 2 else 3, 0 if rng.random() < .5 else 0))
            elif r < 0.9: cmds.append('sum %d' % a)
            else:
                x = rng.random(); cols, rows, v = rng.choice([1, 2, 3]), rng.choice([1, 2, 3]), rng.choice([1, 2, 4])
                if x < 0.3: cmds.append('init %d 2 %d %d 0 %d %d' % (a, cols, rows, v, cols * rows * v - 1))
                elif x < 0.45: cmds.append('init %d 2 %d %d 0 %d %d' % (a, rng.choice([0, -1]), rows, v, 64))
                elif x < 0.6: cmds.append('init %d 2 %d %d 0 %d %d' % (a, cols, rng.choice([-1, -2]), v, 64))
                elif x < 0.8: cmds.append('init %d %d %d %d 1 %d %d' % (a, rng.choice([0, 4, -1]), cols, rows, v, 64))
                else: cmds.append('init %d 2 %d %d 0 %d %d' % (a, cols, rows, v, cols * rows * v)); dims[a] = (cols, rows, v)
        for _ in range(4):
            t = rng.choice([1, 4, 9]); s0 = rng.randrange(0, t + 1); e0 = rng.randrange(s0, t + 1); ln = e0 - s0
            cmds.append('%s %d %d %d %d %d' % (rng.choice(['vset', 'vset', 'vfill']), t, s0, e0, rng.choice([0, 0, 1, -1, ln, ln - 1, -2]), rng.choice([0, 1, max(0, ln - 1), ln, ln + 1])))
        sessions.append(dict(id='random-%d' % i, cmds=cmds))
    # sizes beyond the small integer types: wide rows, many rows
    for cols, rows, vs in [(150, 4, 2), (300, 3, 1), (40, 3, 8), (2, 300, 2), (1, 140, 4), (3000, 4, 8), (2, 3000, 8)]:
        o = rng.randrange(1, rows); cmds = ['init %d 2 %d %d 0 %d %d' % (a, cols, r, vs, cols * r * vs) for a, r in ((1, rows), (2, o), (3, 0))]
        cmds += ['put 1 %d %d 9' % (cols - 1, rows - 1), 'shift 1 %d' % -rng.randrange(1, min(rows, 3)), 'copy 1 %d 2' % (rows - o), 'copy 1 %d 2' % (rows - o + 1), 'copy 1 0 2', 'put 1 %d %d 7' % (rng.randrange(cols), rng.randrange(rows)), 'shift 1 %d' % (1 - rows), 'sum 1', 'fill 1 -7']
        sessions.append(dict(id='size-%dx%dx%d' % (cols, rows, vs), cmds=cmds))
    for cols, rows, vs in [(300, 110, 1), (2, 35000, 2)] + ([(1, 70000, 4), (260, 260, 8)] if c.thorough else []):     # beyond 16 bits of cells
        o = rng.randrange(2, 9); cmds = ['init %d 2 %d %d 0 %d %d' % (a, cols, r, vs, cols * r * vs) for a, r in ((1, rows), (2, o))] + ['init 3 2 %d %d 0 %d %d' % (cols, rows, vs, cols * rows * vs - 1)]
        cmds += ['put 1 %d %d 9' % (cols - 1, rows - 1), 'copy 1 %d 2' % (rows - o), 'copy 1 %d 2' % (rows - o + 1), 'shift 1 -1', 'sum 1']
        sessions.append(dict(id='cells-%dx%dx%d' % (cols, rows, vs), cmds=cmds))
    for s, ev in zip(sessions, c.run_sessions(b, sessions)): s['ev'] = ev
    # vectors are judged only where the call is meaningful
    c.notes['histories_from_spec'] = len(beh); c.notes['histories_in_spec'] = total
    c.judge('ArrayTrace', sessions)

vf.main('C20', check, assumptions=['accesses outside the buffers are observed by AddressSanitizer around exactly sized allocations', 'only two-dimensional arrays are modelled (other dimensionalities of init only for their refusals)'])
