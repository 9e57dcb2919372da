import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
CFG = 'INIT Init\nNEXT Next\nINVARIANTS Newest Ordered %s\nCONSTANTS\n W=%d\n MAXFED=%d\n EMIT=%s\nCHECK_DEADLOCK FALSE\n'

def check(c):
    rng = c.rng
    for w in ([2, 3, 5] if c.thorough else [3]): c.design_check('Window_MC', CFG % ('', w, 9 if c.thorough else 7, 'FALSE'), must=20)
    b = c.cc(os.path.join(vf.HARNESS, 'arrays.c'))
    sessions = []; n = 0
    for w, fed in ([(1, 3), (2, 7), (3, 8), (4, 9)] if c.thorough else [(1, 2), (2, 5), (3, 6), (4, 6)]):
        for h in c.behaviours('Window_MC', CFG % ('Emit', w, fed, 'TRUE')):
            n += 1; vs = (1, 2, 4, 8)[n % 4]
            sessions.append(dict(id='spec-%d' % n, cmds=['window %d %d %d' % (1 + n % 3, w, vs)] + ['push %d' % k for k in h]))
    if n < 40: raise vf.Broken('too few histories')
    lim = 600 if c.thorough else 160
    if len(sessions) > lim: sessions = rng.sample(sessions, lim)
    for i in range(200 if c.thorough else 60):
        w = rng.choice([1, 2, 3, 5, 8, 16, 40]); cols = rng.choice([1, 2, 3, 7, 13]); vs = rng.choice([1, 2, 4, 8])
        mode = rng.choice(['fixed', 'any', 'full', 'one'])
        k = rng.randrange(1, w + 1)
        cmds = ['window %d %d %d' % (cols, w, vs)]
        for _ in range(rng.choice([4, 12, 25])):
            cmds.append('push %d' % {'fixed': k, 'any': rng.randrange(1, w + 1), 'full': w, 'one': 1}[mode])
        sessions.append(dict(id='random-%d' % i, cmds=cmds))
    for cols, w, vs in [(300, 4, 2), (2, 300, 1), (140, 3, 8), (1, 700, 4)]:
        sessions.append(dict(id='size-%dx%dx%d' % (cols, w, vs), cmds=['window %d %d %d' % (cols, w, vs)] + ['push %d' % rng.choice([1, 2, w // 2, w - 1, w]) for _ in range(5)]))
    for s, ev in zip(sessions, c.run_sessions(b, sessions)): s['ev'] = ev
    c.notes['chunk_histories_from_spec'] = n
    c.judge('ArrayTrace', sessions)

vf.main('C21', check, assumptions=['chunks are at most as long as the window, as the operations require'])
