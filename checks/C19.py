import os, sys, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
from fractions import Fraction
CFG = 'INIT Init\nNEXT Next\nINVARIANTS Saturates Odd SignKept Monotone Inverse Judged\nCONSTANTS\n VMAX=%d\n MAXS={1, 3, 7}\n NUMS={1, 2, 5}\n DENS={1, 2, 3}\nCHECK_DEADLOCK FALSE\n'
def f32(x): return struct.unpack('f', struct.pack('f', x))[0]
CAP = Fraction(2) ** 40
def product(v, s):
    """exact product, its tolerance in 2^-24 units (0 when single precision represents it), and whether digits below the unit exist"""
    if abs(v) == float('inf'): p = CAP if (v > 0) == (s > 0) else -CAP
    else: p = Fraction(v) * Fraction(s)
    if abs(p) >= CAP: p = CAP if p > 0 else -CAP; return p, 0
    try: exact = Fraction(f32(float(p))) == p
    except OverflowError: exact = False
    return p, 0 if exact else int(abs(p) * 2) + 2
def check(c):
    rng = c.rng
    c.design_check('Quant_MC', CFG % (24 if c.thorough else 8), must=1000)
    b = c.cc(os.path.join(vf.HARNESS, 'quant.c'))
    M = 32767.0
    sess = []
    for i in range(500 if c.thorough else 120):
        cmds = []
        for _ in range(10):
            s = rng.choice([1.0, 2.0, 0.5, 1024.0, 3.0, 327.67, 32767.0 / 9.0, 1e-3, 1e6, 1e-20, 1e30, -1.0, -2.5, rng.uniform(0.01, 5000), 1 / 3]); s = f32(s)
            op = rng.choice('ffcci'); n = rng.choice([0, 1, 2, 3, 8, 33]); on = n if rng.random() < 0.85 else rng.choice([max(0, n - 1), n + 1, 2 * n + 1, 0])
            if op == 'i':
                s = f32(rng.choice([1.0, 2.0, 0.5, 3.0, 327.67, 32767.0 / 9.0, 1e-3, 1e6, -2.5, rng.uniform(0.01, 5000)]))
                vals = [str(rng.choice([0, 1, -1, 32767, -32767, -32768, rng.randrange(-32768, 32768)])) for _ in range(n)]
            else:
                vals = []
                for _ in range(n):
                    r = rng.random()
                    t = M if r < 0.3 else rng.choice([32766.0, 1.0, 0.0, 32768.0, 65535.0, 65536.0, 32768 * 3.0, 2.0**31, 2.0**32 + 5]) if r < 0.5 else rng.uniform(0, 40000) if r < 0.9 else 10 ** rng.uniform(-30, 30)
                    v = f32(min(3.4e38, max(-3.4e38, t / s)))
                    if rng.random() < 0.4:   # neighbours of the limit
                        u = struct.unpack('i', struct.pack('f', v))[0] + rng.choice([-2, -1, 1, 2]); v = struct.unpack('f', struct.pack('i', u))[0] if v != 0 else v
                    if v != v or rng.random() < 0.01: v = float('inf')
                    vals.append((v if rng.random() < 0.5 else -v).hex() if abs(v) != float('inf') else rng.choice(['inf', '-inf']))
            cmds.append('%s %s %d %d %s' % (op, s.hex(), n, on, ' '.join(vals)))
        sess.append(dict(id='quant-%d' % i, cmds=cmds))
    for i, (m, reps) in enumerate([(3, 50), (7, 40), (4, 64), (5, 60), (16, 17), (9, 3700), (8, 4096), (13, 5100), (16, 4096), (6, 30000), (1, 256), (1, 32768), (1, 65536)]):
        s = f32(rng.choice([1.0, 2.0, 0.5, 3.0, 327.67])); lim = [M / s * 2, -M / s * 3] if m > 1 else [M / s * 2 * (-1)**i]
        cmds = ['P %s %d %d %s' % (s.hex(), m, reps, ' '.join(f32(v).hex() for v in lim + [rng.uniform(-1.2, 1.2) * M / s for _ in range(m - len(lim))]))]
        sess.append(dict(id='long-%d' % i, cmds=cmds))
    flt = lambda x: float(x) if 'inf' in x else float.fromhex(x)
    for s, ev in zip(sess, c.run_sessions(b, sess)):
        for e in ev:
            if e['op'] == 'fwd':
                sc = flt(e.pop('scale')); v = [flt(x) for x in e.pop('v')]; o = e.pop('o'); e['items'] = []
                if e['n'] == e['outn']:
                    for x, q in zip(v, o):
                        p, t = product(x, sc); e['items'].append(dict(p=vf.bigx(p, 24), t=vf.big(t), above=(abs(p) * 2**24).denominator != 1, q=vf.big(q)))
            elif e['op'] == 'long':
                sc = flt(e.pop('scale')); v = [flt(x) for x in e.pop('v')]; o = e.pop('o'); back = [flt(x) for x in e.pop('back')]; e['items'] = []; e['bitems'] = []
                for x, q, y in zip(v, o, back):
                    p, t = product(x, sc); e['items'].append(dict(p=vf.bigx(p, 24), t=vf.big(t), above=(abs(p) * 2**24).denominator != 1, q=vf.big(q)))
                    e['bitems'].append(dict(p=vf.bigx(Fraction(y) * Fraction(sc), 24), q=vf.big(q * 2**24), t=vf.big(abs(q) * 3 + 2)))
            elif e['op'] == 'cinv':
                sc = flt(e.pop('scale')); v = e.pop('v'); o = [flt(x) for x in e.pop('o')]; e['items'] = []
                if e['n'] == e['outn']:
                    for x, y in zip(v, o): e['items'].append(dict(p=vf.bigx(Fraction(y) * Fraction(sc) if abs(y) != float('inf') else 2**60, 24), q=vf.big(x * 2**24), t=vf.big(abs(x) * 3 + 2)))
        s['ev'] = [dict(op='setup', hi=vf.big(32767), lo=vf.big(-32767))] + ev
    c.judge('QuantTrace', sess)
vf.main('C19', check, assumptions=['values are not NaN', 'where the single precision product is inexact its last place is left open'])
