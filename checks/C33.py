import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, extrun
S = 100000
def roots(M): return [round(S * math.cos(2 * math.pi * i / M)) for i in range(M)], [round(S * math.sin(2 * math.pi * i / M)) for i in range(M)]
def centres(nm, fmin, fmax):
    q = ((700 + fmax) / (700 + fmin)) ** (1 / (nm + 1))
    return [round(100 * ((700 + fmin) * q ** i - 700)) for i in range(nm + 2)]
def check(c):
    rng = c.rng; T = c.thorough
    for n, sr in [(8, 16), (6, 12)] + ([(16, 32), (12, 16)] if T else []):
        g = sorted({round(x * 100 * sr / (2 * n) / k) for x in range(n + 2) for k in (1,)} | {(k * sr * 100) // (n + 1) + d for k in range(n // 2 + 3) for d in (0, 1)} | {rng.randrange(0, 60 * sr) for _ in range(8)})
        c.design_check('Mel_MC', 'INIT Init\nNEXT Next\nINVARIANTS Right Inside Outside\nCONSTANTS\n N=%d\n SR=%d\n GRID={%s}\nCHECK_DEADLOCK FALSE\n' % (n, sr, ','.join(map(str, g))), must=1000)
    b = c.cc(os.path.join(vf.HARNESS, 'mel.c'), san='address,bounds,integer-divide-by-zero')
    sess = []
    def params():
        sr = rng.choice([8000, 11025, 16000, 22050, 44100, 48000, 96000, 192000]); n = rng.choice([16, 32, 64, 64, 128, 256, 512, 1024, 2048, 20, 50, 300, 1000]); top = sr / 2
        fmax = rng.choice([top, top, top * .9, top * .5, rng.uniform(.3, 1) * top]); fmin = rng.choice([0, 0, 20, 125.5, .2 * fmax]); nm = rng.choice([1, 2, 3, 10, 16, 20, 32, 40])
        # bands wider than the precision of the frequencies
        while nm > 1 and min(b - a for a, b in zip(centres(nm, fmin, fmax), centres(nm, fmin, fmax)[1:])) < 2500: nm = nm // 2
        return sr, n, nm, fmin, fmax
    def session(id, sr, n, nm, fmin, fmax, tables=False):
        fmin, fmax = round(fmin, 2), round(fmax, 2)
        s = dict(id=id, sr=sr, n=n, nm=nm, fmin=round(100 * fmin), fmax=round(100 * fmax), cs=centres(nm, fmin, fmax), f=(fmin, fmax), cmds=[], meta=[])
        if tables: s['wc'], s['ws'] = roots(n - 1); s['dc'], s['ds'] = roots(n)
        return s
    def head(s): return '%d %d %d %.2f %.2f' % (s['sr'], s['n'], s['nm'], *s['f'])
    def mel(s, pts, slen=None, mlen=None):
        slen = s['n'] // 2 + 1 if slen is None else slen; mlen = s['nm'] if mlen is None else mlen
        pts = [(p, v) for p, v in pts if p < slen]
        s['cmds'].append('m %s %d %d %d %s' % (head(s), slen, mlen, len(pts), ' '.join('%d %d' % x for x in pts))); s['meta'].append(dict(pos=[p for p, v in pts], vs=[v for p, v in pts]))
    def gram(s, xs, ilen=None, tlen=None, tab=None, dirt=0):
        ilen = s['n'] if ilen is None else ilen; tlen = s['n'] if tlen is None else tlen; tab = s['n'] // 2 if tab is None else tab
        xs = (xs + [1] * ilen)[:ilen]; s['cmds'].append('g %s %d %d %d %d %s' % (head(s), ilen, tlen, tab, dirt, ' '.join(map(str, xs)))); s['meta'].append(dict(xs=xs))
    # every bin by itself, then whole spectra
    for i in range(60 if T else 24):
        sr, n, nm, fmin, fmax = params(); s = session('mel-%d' % i, sr, n, nm, fmin, fmax); bins = range(n // 2 + 1)
        for k in (bins if n <= 64 else sorted(set(rng.sample(bins, 50)) | {0, 1, n // 2 - 1, n // 2})): mel(s, [(k, 1)])
        edge = sorted({max(0, min(n // 2, round(f / 100 * n / sr) + d)) for f in s['cs'] for d in (-1, 0, 1)})
        for k in rng.sample(edge, min(len(edge), 30)): mel(s, [(k, 1)])
        for _ in range(4): mel(s, [(k, rng.randrange(-9, 10)) for k in sorted(rng.sample(bins, min(len(bins), rng.choice([2, 9, 200]))))])
        if n <= 512: mel(s, [(k, 1) for k in bins])
        mel(s, [(0, 3)], slen=n // 2 + 1 + rng.choice([1, 7, n // 2 - 1])); sess.append(s)
    # lengths that do not fit, limits outside of the spectrum
    for i in range(30 if T else 12):
        sr, n, nm, fmin, fmax = params(); s = session('fit-%d' % i, sr, n, nm, fmin, fmax)
        for sl, ml in [(n // 2, nm), (0, nm), (1, nm), (n // 2 + 1, nm + 1), (n // 2 + 1, nm - 1), (n // 2 - 1, nm), (n // 2 + 2, nm + 3)]: mel(s, [(0, 1)], slen=sl, mlen=ml)
        sess.append(s)
        for j, (lo, hi) in enumerate([(fmin, sr / 2 * 1.05 + 2 * sr / n), (fmin, sr), (fmin, sr * (n / 2 + 1) / (n + 1) + 2), (fmin, sr * (n / 2 + 1) / (n + 1) - .5), (fmin, sr / 2 + .4), (-300, fmax), (-5, fmax)]):
            s = session('outside-%d-%d' % (i, j), sr, n, min(nm, 4), lo, hi); mel(s, [(k, 1) for k in range(n // 2 + 1)][:40]); sess.append(s)
            if n & (n - 1) == 0 and n >= 4: s['nm'] = min(s['nm'], n); s['cs'] = centres(s['nm'], *s['f']); s['cmds'] = []; s['meta'] = []; mel(s, [(1, 1)]); gram(s, [1] * n)
    # whole pipeline
    for i in range(40 if T else 16):
        sr, n, nm, fmin, fmax = params(); n = rng.choice([4, 8, 16, 32, 64, 64]); nm = min(nm, n // 2); s = session('gram-%d' % i, sr, n, nm, fmin, fmax, True)
        fr = [[rng.randrange(-10, 11) for _ in range(n)], [10 * (k == rng.randrange(n)) for k in range(n)], [round(10 * math.sin(2 * math.pi * k * rng.choice([1, 2, n // 4, n // 2 - 1, 1.5]) / n + .7)) for k in range(n)],
              [round(10 * math.cos(2 * math.pi * k * (i % (n // 2 + 1)) / n)) for k in range(n)], [10] * n, [0] * n]
        for x in fr: gram(s, x, dirt=rng.choice([0, 0, 5]), tlen=n + rng.choice([0, 0, 3]))
        for kw in [dict(ilen=n - 1), dict(ilen=2 * n), dict(ilen=n // 2), dict(tlen=n - 1), dict(tlen=n // 2 + 1), dict(tlen=0), dict(tab=n), dict(tab=n // 4)]: gram(s, fr[0], **kw)
        sess.append(s)
        s = session('many-%d' % i, sr, n, n + rng.choice([1, 3, n]), 0, sr / 2); gram(s, fr[0]); sess.append(s)
    # windows of every length, powers
    for n in [2, 3, 4, 5, 7, 8, 9, 16, 31, 32, 64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 512]:
        s = session('hann-%d' % n, 16000, n, 1, 0, 8000, True); s['meta'] = []
        for xs in [[1] * n, [rng.randrange(-50, 51) for _ in range(n)]]: s['cmds'].append('h %d %s' % (n, ' '.join(map(str, xs)))); s['meta'].append(dict(xs=xs))
        sess.append(s)
    s = session('power', 16000, 4, 1, 0, 8000)
    for n in [4, 8, 64, 256, 512, 1000, 1024, 2048]:
        for il, ol in [(n, n // 2 + 1), (n, n), (n, n // 2), (n // 2 + 2, n // 2 + 1), (n // 2 + 1, n // 2 + 1), (n // 2, n // 2 + 1), (n, n // 2 + 2), (2 * n, n // 2 + 1)]:
            xs = [rng.randrange(-900, 901) for _ in range(il)]; s['cmds'].append('p %d %d %d %s' % (n, il, ol, ' '.join(str(x / 4) for x in xs))); s['meta'].append(dict(vs=xs))
    sess.append(s)
    UNIT = dict(mel=1000, gram=100, power=1000, hann=S)
    for s, ev in zip(sess, c.run_sessions(b, sess, timeout=120)):
        it = iter(s.pop('meta')); out = [dict(op='centres')] * (not s['id'].startswith(('hann', 'power', 'outside'))) + [dict(op='tables')] * ('wc' in s)
        for e in ev:
            if e['op'] in UNIT: e.update(next(it)); e['out'] = [vf.micro(x, UNIT[e['op']]) for x in e['out']]
            out.append(e)
        s['ev'] = out; del s['cmds']; s.pop('f')
    # through the extension
    calls = []; meta = []
    for i in range(30 if T else 12):
        sr, n, nm, fmin, fmax = params(); n = rng.choice([8, 16, 32, 64]); nm = min(nm, n // 2); s = session('ext-%d' % i, sr, n, nm, fmin, fmax, True); s.pop('cmds'); s.pop('meta'); f = s.pop('f'); s['ev'] = [dict(op='centres'), dict(op='tables')]; sess.append(s)
        for _ in range(4):
            v = [rng.randrange(0, 10) for _ in range(n // 2 + 1)]; calls.append(('melfilter', [extrun.arr(v, rng.choice(['float32', 'float64', 'int32'])), sr, n, nm, *f])); meta.append((s, dict(op='mel', slen=n // 2 + 1, mlen=nm, kept=True, pos=list(range(len(v))), vs=v)))
            x = [rng.randrange(-10, 11) for _ in range(n)]; calls.append(('melspectrogram', [extrun.arr(x, rng.choice(['float32', 'float64'])), sr, n, nm, *f])); meta.append((s, dict(op='gram', ilen=n, tlen=n, tab=n // 2, xs=x)))
        v = [1] * (n // 2 + rng.choice([0, 2, 3])); calls.append(('melfilter', [extrun.arr(v), sr, n, nm, *f])); meta.append((s, dict(op='mel', slen=n // 2, mlen=nm, kept=True, pos=[], vs=[])))
        x = [1] * (n + rng.choice([-1, 1, n])); calls.append(('melspectrogram', [extrun.arr(x), sr, n, nm, *f])); meta.append((s, dict(op='gram', ilen=len(x), tlen=n, tab=n // 2, xs=x)))
    for (s, e), r in zip(meta, extrun.call(c, 'eml_audio', calls)):
        if 'crash' in r: s['ev'].append(dict(op='crash', why=r['crash'])); continue
        e['ret'] = 1 if 'raised' in r else 0; e['out'] = [vf.micro(x, UNIT[e['op']]) for x in r.get('y', [])]
        s['ev'].append(e)
    c.judge('MelTrace', sess)
vf.main('C33', check, assumptions=['centres of the bands are computed by the check and shown to be geometric in 700 + f by the specification', 'bands at least 25 Hz wide; weights to about three parts in a thousand'])
