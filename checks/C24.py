import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
CFG = 'SPECIFICATION Spec\nINVARIANTS InBounds Same Sorted StackDepth\nPROPERTIES Terminates\nCONSTANTS\n KEYS={0,1,2}\n MAXN=%d\n THRESH=%d\n PATTERNS={%s}\nCHECK_DEADLOCK FALSE\n'
def arrays(rng, n):
    yield list(range(n)); yield list(range(n, 0, -1)); yield [7] * n
    yield [i % 2 for i in range(n)]; yield [min(i, n - i) for i in range(n)]; yield [i % 5 for i in range(n)]; yield [i // 4 for i in range(n)]
    yield [max(i, n - i) for i in range(n)]; yield list(range(1, n)) + [0] if n else []; yield [n] + list(range(n - 1)) if n else []
    for _ in range(3):
        m = rng.choice([1, 2, 3, 10, 1000, 30000]); yield [rng.randrange(m + 1) for _ in range(n)]
    x = list(range(n))
    for _ in range(rng.choice([1, 2, 4])):
        if n > 1: i, j = rng.randrange(n), rng.randrange(n); x[i], x[j] = x[j], x[i]
    yield x
def killer(n):
    """sequence that makes median-of-three of (second, middle, last) degenerate"""
    import functools
    val = [None] * n; solid = [0]; gas = n; cand = [0]
    def cmp(x, y):
        if val[x] is None and val[y] is None:
            if x == cand[0]: val[x] = solid[0]; solid[0] += 1
            else: val[y] = solid[0]; solid[0] += 1
        if val[x] is None: cand[0] = x
        elif val[y] is None: cand[0] = y
        return (val[x] if val[x] is not None else gas) - (val[y] if val[y] is not None else gas)
    a = list(range(n))
    def less(i, j): return cmp(a[i], a[j]) < 0
    def swap(i, j): a[i], a[j] = a[j], a[i]
    st = [(0, n - 1)]
    while st:
        l, r = st.pop()
        if r - l + 1 < 16:
            for i in range(l + 1, r + 1):
                j = i
                while j > l and less(j, j - 1): swap(j, j - 1); j -= 1
            continue
        m = l + (r - l) // 2; x, y, z = l + 1, m, r
        if less(y, x):
            if less(z, y): swap(x, z)
            else:
                swap(x, y)
                if less(z, y): swap(y, z)
        elif less(z, y):
            swap(y, z)
            if less(y, x): swap(x, y)
        swap(l, m); i, j = l + 1, r
        while True:
            i += 1
            while less(i, l): i += 1
            j -= 1
            while less(l, j): j -= 1
            if i >= j: break
            swap(i, j)
        swap(l, j); st += [(l, j - 1), (j + 1, r)]
    return [v if v is not None else gas for v in val]
def check(c):
    rng = c.rng
    c.design_check('Sort_MC', CFG % (8 if c.thorough else 7, 5, '16, 17, 33'), must=3000)
    c.design_check('Sort_MC', CFG % (4, 16, '15, 16, 17, 31, 32, 33, 48, 64' if not c.thorough else ','.join(map(str, range(2, 90)))), must=100)
    b = c.cc(os.path.join(vf.HARNESS, 'sort.c'))
    cmds = []
    for n in range(0, 7 if not c.thorough else 9):
        for t in itertools.product(range(3), repeat=n): cmds.append((2, t))
    for n in (16, 17, 18):      # zero/one arrays around the real threshold
        tot = 2 ** n
        for m in rng.sample(range(tot), 6000 if c.thorough else 350): cmds.append((rng.choice([0, 1]), [(m >> i) & 1 for i in range(n)]))
    for n in list(range(0, 70)) + [100, 127, 128, 129, 255, 256, 400] + ([1000, 2000, 5000] if c.thorough else [1100]):
        for t in arrays(rng, n): cmds.append((rng.choice([0, 0, 1]), t))
    for n in [16, 17, 32, 64, 100, 200, 400]: cmds += [(k, killer(n)) for k in (0, 1)]
    rng.shuffle(cmds)
    # distances at the limits of their type
    cmds += [(0, [0, 65535, 2**31 - 1, 5, 2**31 - 1, 0] * 5), (0, [2**31 - 1 - i for i in range(40)])]
    sess = [dict(id='sort-%d' % i, cmds=['%d %d %s' % (k, len(t), ' '.join(map(str, t))) for k, t in cmds[i::40]]) for i in range(40)]
    many = [dict(id='many-%d' % i, cmds=['L%d %d %d %d %d' % (k, n, m, sh, rng.randrange(1, 2**31)) for k in ((0, 1) if n < 32768 else (1,)) for m in (2, 5, 300) for sh in (0, 1, 2, 3)]) for i, n in enumerate([256, 300, 32767, 32768, 33000, 65535, 65536, 65537, 70000, 131073] + ([300000, 1000000] if c.thorough else []))]
    sess += many
    for s, ev in zip(sess, c.run_sessions(b, sess, timeout=60)): s['ev'] = ev
    c.judge('SortTrace', sess)
vf.main('C24', check, assumptions=['positions accessed are recorded through the comparison and swap primitives of the generic sort'])
