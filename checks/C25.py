import os, sys, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, numpy
from fractions import Fraction
def f32(x): return struct.unpack('f', struct.pack('f', x))[0]
def check(c):
    rng = c.rng
    from emlearn import fixedpoint
    c.design_check('Fixed_MC', 'INIT Init\nNEXT Next\nINVARIANTS Nearest Trunc Agree OnlyOne Product\nCONSTANTS\n W=%d\n F=3\nCHECK_DEADLOCK FALSE\n' % (7 if c.thorough else 6), must=1000)
    c.design_check('Big_MC', 'INIT Init\nNEXT Next\nINVARIANTS Ops Rings\nCONSTANTS NUMS={0, 1, 2, 3, 99, 9999, 10000, 10001, 45999, 123456, 99999999, 100000000, 1073741823}\nCHECK_DEADLOCK FALSE\n', must=600)
    b = c.cc(os.path.join(vf.HARNESS, 'fixed.c'), san='integer-divide-by-zero')
    def real(lim=32767.999):
        r = rng.random()
        if r < 0.2: v = rng.randrange(0, int(lim) + 1) + rng.choice([0, 0.5, 1 / 65536, 65535 / 65536, 1 - 2**-20, 2**-20])
        elif r < 0.4: v = rng.randrange(1, 2**17) * 2.0 ** -rng.randrange(14, 40)
        elif r < 0.5: v = 10 ** rng.uniform(-12, 0)
        elif r < 0.6: v = rng.choice([0.0, 1.0, 0.1, 2**-16, 2**-17, 32767.0, 32767.5, lim])
        else: v = rng.uniform(0, lim)
        return float(min(v, lim)) * rng.choice([1, -1])
    n = 6000 if c.thorough else 1200
    fs = [f32(real()) for _ in range(n)]; fs = [x for x in fs if abs(x) < 32768]; ds = [real(32767.9999847) for _ in range(n)]
    ints = list(range(-32768, 32768, 1 if c.thorough else 37)) + [-32768, 32767, 0, -1]
    divs = []
    I = lambda: rng.choice([rng.randrange(-2**31, 2**31), rng.randrange(-2**17, 2**17), rng.choice([1, -1]) * rng.randrange(1, 40), rng.choice([2**31 - 1, -2**31, 65536, -65536, 1, -1, 2, 3, -3, 0])])
    for _ in range(3 * n):
        a, d = I(), I()
        if rng.random() < 0.3 and d: a = max(-2**31, min(2**31 - 1, (rng.randrange(-3000, 3000) * d + rng.choice([0, d // 2, d // 2 + 1, -1])) // 65536))
        if d: divs.append((a, d))
    muls = []
    while len(muls) < 2 * n:
        a, d = I(), I()
        if rng.random() < .5: a = a // 256 * 256; d = d // 256 * 256
        if rng.random() < .4: d = rng.choice([rng.randrange(-2**20, 2**20), rng.choice([1, -1]) * rng.randrange(1, 40) * 65536, rng.randrange(-300, 300) * 256])
        # the product, and the one of the factors rounded down, are representable
        if all(abs(v) < 2**31 - 2**24 for v in (a * d / 65536, (a >> 8) * (d >> 8))): muls.append((a, d))
    cmds = ['f ' + x.hex() for x in fs] + ['d ' + x.hex() for x in ds] + ['d -32768.0', 'f -32768.0'] + ['i %d' % i for i in ints] + ['/ %d %d' % t for t in divs] + ['t %d' % v for v in [0, -1, 1, 65535, -65535, 65536, -65536, -65537, 2**31 - 1, -2**31] + [I() for _ in range(n // 2)]] + ['* %d %d' % t for t in muls]
    sess = [dict(id='c-%d' % i, cmds=cmds[i::8]) for i in range(8)]
    q16 = fixedpoint.FixedPointFormat(integer_bits=15, fraction_bits=16)
    for s, evs in zip(sess, c.run_sessions(b, sess, timeout=60)):
        out = []
        for e in evs:
            if e['op'] in 'fd':
                x = float.fromhex(e['x']); X = vf.bigx(x, 60); q = vf.big(e['q'])
                out.append(dict(op='conv', who='c-' + e['op'], f=16, x=X, q=q, v=e['x']))
                py = fixedpoint.from_float(numpy.array([x], dtype='float32' if e['op'] == 'f' else 'float64'), q16)
                out.append(dict(op='agree', c=q, py=vf.big(py[0]), v=e['x']))
                out.append(dict(op='back', f=16, x=X, y=vf.bigx(fixedpoint.to_float(py, q16)[0], 60), who='py', v=e['x']))
                if e['op'] == 'f': out.append(dict(op='back', f=16, x=X, y=vf.bigx(float.fromhex(e['y']), 60), who='c', v=e['x']))
            elif e['op'] == 'i': out.append(dict(op='int', i=vf.big(e['i']), q=vf.big(e['q']), back=vf.big(e['back'])))
            elif e['op'] == 'div': out.append(dict(op='div', a=vf.big(e['a']), b=vf.big(e['b']), q=vf.big(e['q'])))
            elif e['op'] == 'toint': out.append(dict(op='toint', q=vf.big(e['q']), i=vf.big(e['i'])))
            elif e['op'] == 'mul': out.append(dict(op='mul', a8=vf.big(e['a'] >> 8), b8=vf.big(e['b'] >> 8), a=vf.big(e['a']), b=vf.big(e['b']), q=vf.big(e['q'])))
            else: out.append(e)
        s['ev'] = out
    # other formats and shapes in Python
    for k in range(120 if c.thorough else 25):
        f = rng.choice([1, 4, 8, 12, 15, 16, 20, 24, 28, 30]); fmt = fixedpoint.FixedPointFormat(integer_bits=31 - f, fraction_bits=f)
        sh = rng.choice([(6,), (2, 3), (1, 1, 4), (0,)]); X = numpy.array([real(2.0 ** (31 - f) * 0.999999) for _ in range(int(numpy.prod(sh)))], dtype=rng.choice(['float64', 'float32'])).reshape(sh)
        if rng.random() < 0.2: X = X.astype(int)
        X0 = X.copy(); Q = fixedpoint.from_float(X, fmt); B = fixedpoint.to_float(Q, fmt); ev = [dict(op='shape', ok=Q.shape == sh and B.shape == sh and numpy.array_equal(X, X0) and Q.dtype.kind == 'i')]
        for x, q, y in zip(X.ravel(), Q.ravel(), B.ravel()):
            ev += [dict(op='conv', who='py', f=f, x=vf.bigx(x.item(), 60), q=vf.big(q), v=str(x)), dict(op='back', f=f, x=vf.bigx(x.item(), 60), y=vf.bigx(y.item(), 60), who='py', v=str(x))]
        sess.append(dict(id='py-%d' % k, ev=ev))
    names = []
    for ib in range(0, 32):
        for sb in (0, 1):
            fb = 32 - sb - ib
            names.append(dict(op='ctype', int=ib, fract=fb, sign=sb, name=fixedpoint.FixedPointFormat(integer_bits=ib, fraction_bits=fb, sign_bits=sb).ctype))
    sess.append(dict(id='types', ev=names))
    c.judge('FixedTrace', sess)
vf.main('C25', check, assumptions=['C conversion back is judged for values that single precision represents'])
