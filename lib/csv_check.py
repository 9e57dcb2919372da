"""sessions for the CSV reader and writer, from histories of spec/Csv_MC and from random files"""
import os, struct, vf
MC = 'INIT Init\nNEXT Next\n%sINVARIANTS Prefix EndMeansAll NoCorruption %s\nCONSTANTS\n MAXROWS=%d\n MAXFAULT=%d\n DEPTH=%d\n EMIT=%s\nCHECK_DEADLOCK FALSE\n'
def hx(s): return s.encode('latin1').hex() or '-'
def fl(v): return repr(float(v))
NAMES = ['a', 'b', 'time', 'acc_x', 'x y', '0', 'value.1', 'a' * 20, '"q"', '', '\u00e9']
def f32(rng):
    r = rng.random()
    if r < 0.3: v = rng.randrange(-1000, 1000) / rng.choice([1, 2, 4, 10, 1000])
    elif r < 0.5: v = rng.uniform(-1, 1) * 10 ** rng.randrange(-8, 4)
    elif r < 0.7: v = rng.uniform(-1, 1) * 10 ** rng.randrange(4, 11)
    else: v = rng.choice([0.0, -0.0, 1.0, 16777216.0, 16777217.0, 0.1, 1e-6, -1e-6, 5e-7, 4.9e-7, 1e-30, 123456.789, 99999.99, -99999.99, 0.9999999, 999999.9, 1e11, -9e10, 1e5 - 0.0078125])
    return struct.unpack('f', struct.pack('f', v))[0]
def width(v): return len('%.6f' % v)
def cells(rng, n):
    out = []
    while len(out) < n:
        v = f32(rng)
        if width(v) < 20: out.append(v)
    return out
# the widest values that fit: 12 digits before the point when positive, 11 when negative
EDGE = [123456790528.0, -12345678848.0, 999999995904.0, -99999997952.0, 999999.0, 12345678.0]
WIDE = [1e13, 1.1e12, 9.9e12, -1.1e11, -9.9e11, -1e12, 3.4e38, -3.4e38, 1e12, -123456790528.0]

def roundtrip(c, n):
    rng = c.rng; out = []
    for i in range(n):
        k = rng.choice([1, 1, 2, 3, 5, 7, 12, 40]); rows = rng.choice([0, 1, 2, 3, 5, 17])
        cmds = ['backend ' + ('f' if i % 3 == 0 else 'm')]
        names = [rng.choice(NAMES) for _ in range(k)]
        cmds.append('wheader ' + ' '.join(hx(x) for x in names))
        longest = len(','.join(names)) + 1
        for _ in range(rows):
            v = cells(rng, k)
            if rng.random() < 0.3: v[rng.randrange(k)] = rng.choice(EDGE)
            if rng.random() < 0.2: v = [rng.choice(EDGE) for _ in v]
            longest = max(longest, len(','.join('%.6f' % x for x in v)) + 1)
            cmds.append('wdata ' + ' '.join(fl(x) for x in v))
        cmds.append('open')
        def sz(): return '%d %d' % (longest + rng.choice([0, 0, 1, 7, 500, 5000]), k + rng.choice([0, 0, 1, 5]))
        cmds.append('rheader ' + sz())
        cmds += ['rdata ' + sz() for _ in range(rows + rng.choice([1, 2, 4]))]
        if rng.random() < 0.2: cmds += ['open', 'rheader ' + sz()] + ['rdata ' + sz() for _ in range(rows + 1)]
        if i % 3 and rng.random() < 0.2:      # the writer starts another file
            k = rng.choice([1, 2, 3, 5, 50]); names = [rng.choice(NAMES) for _ in range(k)]; rows = [cells(rng, k) for _ in range(3)]
            longest = max([len(','.join(names))] + [len(','.join('%.6f' % x for x in v)) for v in rows]) + 1
            cmds += ['newfile', 'wheader ' + ' '.join(hx(x) for x in names)] + ['wdata ' + ' '.join(fl(x) for x in v) for v in rows] + ['open', 'rheader ' + sz()] + ['rdata ' + sz() for _ in range(5)]
        out.append(dict(id='round-%d' % i, cmds=cmds))
    # sizes beyond the small integer types: columns, names, lines, files
    for i, (k, ln, rows, wide) in enumerate([(130, 1, 2, 0), (256, 1, 2, 0), (257, 1, 3, 0), (300, 2, 2, 0), (3, 127, 2, 0), (2, 128, 2, 0), (1, 255, 2, 0), (2, 256, 1, 0), (1, 300, 2, 0), (2, 5000, 2, 0), (1, 33000, 1, 0), (40, 3, 60, 1), (40, 3, 110, 1), (1000, 2, 2, 1)] + ([(1, 70000, 1, 0), (300, 2, 14, 1), (3000, 1, 2, 0), (5, 3, 4000, 0)] if c.thorough else [])):
        names = [(chr(97 + j % 26) * ln) for j in range(k)]; longest = max(k * (ln + 1), k * 20) + 1
        cmds = ['backend ' + rng.choice('mf'), 'wheader ' + ' '.join(hx(x) for x in names)]
        cmds += ['wdata ' + ' '.join(fl(rng.choice(EDGE[2:5]) if wide else rng.randrange(-9, 10)) for _ in range(k)) for _ in range(rows)]
        cmds += ['open', 'rheader %d %d' % (longest, k)] + ['rdata %d %d' % (longest, k + rng.choice([0, 3])) for _ in range(rows + 2)]
        out.append(dict(id='size-%d' % i, cmds=cmds))
    return out

def from_history(h, rng):
    """a behaviour of Csv_MC as calls of the real library"""
    cmds = ['backend ' + rng.choice('mmf'), ]; row = 0; opened = False
    for o in h:
        k = o['op']
        if k == 'wheader': cmds.append('wheader 61 62')
        elif k == 'wgood': row += 1; cmds.append('wdata %d -%d' % (row, row))
        elif k == 'wcount': cmds.append('wdata ' + rng.choice(['', '7', '7 8 9', '1 2 3 4']))
        elif k == 'wwide':
            v = [fl(rng.choice([1.0, -2.5])), fl(rng.choice(WIDE))]; 
            if rng.random() < 0.4: v.reverse()
            cmds.append('wdata ' + ' '.join(v))
        elif k == 'wfault': cmds += ['fault w %d %d' % (o['n'], rng.choice([0, 1, 2])), 'wdata %d -%d' % (row + 1, row + 1), 'nofault']
        elif k == 'open': cmds.append('open')
        elif k == 'rheader': cmds.append('rheader 64 2')
        elif k == 'read': cmds.append('rdata 64 2')
        elif k == 'rfail': cmds += ['fault r 0 0', 'rdata 64 2', 'nofault']
        elif k == 'sfail': cmds += ['fault s %d %d' % (rng.choice([0, 1]), rng.choice([0, 1, 2])), 'rdata 64 2', 'nofault']
    cmds += ['rdata 64 2'] * 3
    return cmds

def faulty(c, n):
    """random files (also malformed ones), small buffers and faults"""
    rng = c.rng; out = []
    for i in range(n):
        k = rng.choice([1, 2, 3, 4, 8]); cmds = ['backend ' + ('f' if i % 4 == 0 else 'm')]
        names = [rng.choice(['a', 'bb', 'time', 'acc_x', 'a' * 12]) for _ in range(k)]; longest = len(','.join(names)) + 1
        if i % 2 == 0:   # written through the library, with rejected rows and faults in between
            if rng.random() < 0.15: cmds.append('fault w %d %d' % (rng.randrange(0, 2 * k), rng.choice([0, 1])))
            cmds += ['wheader ' + ' '.join(hx(x) for x in names), 'nofault']
            for _ in range(rng.choice([0, 1, 3, 6])):
                r = rng.random(); v = cells(rng, k)
                if r < 0.2: v[rng.choice([0, k - 1, rng.randrange(k)])] = rng.choice(WIDE)
                elif r < 0.35: v = cells(rng, rng.choice([k - 1, k + 1, 2 * k]))
                elif r < 0.5: cmds.append('fault w %d %d' % (rng.randrange(0, k + 1), rng.choice([0, 1, 2])))
                longest = max(longest, len(','.join('%.6f' % x for x in v)) + 1)
                cmds += ['wdata ' + ' '.join(fl(x) for x in v), 'nofault']
        else:
            t = ','.join(names) + '\n'
            for _ in range(rng.choice([0, 1, 2, 4])):
                m = k if rng.random() < 0.6 else rng.choice([max(1, k - 1), k + 1, k + 3, 1])
                line = ','.join(rng.choice(['1', '-2.500000', '', 'nan', '123456.789', 'text']) for _ in range(m)) or '5'
                t += line + '\n'; longest = max(longest, len(line) + 1)
            r = rng.random()
            if r < 0.25: t = t[:-1]
            elif r < 0.35: t = t[:rng.randrange(len(t) + 1)]
            elif r < 0.4: t += '\n'
            if t: cmds.append('file ' + t.encode().hex())
        cmds.append('open')
        def sz(): 
            b = longest + rng.choice([0, 0, 1, 30]) if rng.random() < 0.75 else rng.choice([0, 1, 2, longest - 1, longest // 2, longest])
            return '%d %d' % (max(0, b), k + rng.choice([0, 0, 0, 1, 4]) if rng.random() < 0.85 else max(0, k - 1))
        if rng.random() < 0.2: cmds += [rng.choice(['fault r 0 0', 'fault s 0 %d' % rng.choice([0, 1, 2]), 'fault s 1 %d' % rng.choice([0, 1, 2])]), 'rheader ' + sz(), 'nofault']
        cmds.append('rheader %d %d' % (longest + 3, k + rng.choice([0, 1])) if rng.random() < 0.85 else 'rheader ' + sz())
        for _ in range(rng.choice([2, 4, 8])):
            if rng.random() < 0.2: cmds += [rng.choice(['fault r 0 0', 'fault s 0 %d' % rng.choice([0, 1, 2]), 'fault s 1 %d' % rng.choice([0, 1, 2])]), 'rdata ' + sz(), 'nofault']
            cmds.append('rdata ' + sz())
        cmds += ['rdata %d %d' % (longest + 1, k)] * 4
        out.append(dict(id='faulty-%d' % i, cmds=cmds))
    for k in (130, 256, 257, 300, 513):          # numbers of values that agree in their low bits only
        names = ['c%d' % j for j in range(k)]; cmds = ['backend m', 'wheader ' + ' '.join(hx(x) for x in names)]
        for m in (k, k - 256, k + 256, k % 256, k + 1, k):
            if m > 0: cmds.append('wdata ' + ' '.join(['1'] * m))
        cmds += ['file ' + (','.join(['2'] * m) + '\n').encode().hex() for m in (k, k - 256, k + 256, k % 256) if m > 0][:2]
        cmds += ['open', 'rheader 20000 %d' % (k + 300)] + ['rdata 20000 %d' % (k + 300), 'rdata 20000 %d' % (k - 1), 'rdata 20000 %d' % max(1, k % 256)] * 2 + ['rdata 20000 %d' % (k + 300)] * 4
        out.append(dict(id='count-%d' % k, cmds=cmds))
    return out
