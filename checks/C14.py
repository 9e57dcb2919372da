import os, sys, math, json, subprocess, textwrap
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, numpy, struct
from fractions import Fraction
FLT = '#include <stdio.h>\n#include <stdint.h>\n#include <eml_fixedpoint.h>\n'
RANGES = dict(int8_t=(-2**7, 2**7-1), uint8_t=(0, 2**8-1), int16_t=(-2**15, 2**15-1), uint16_t=(0, 2**16-1), int32_t=(-2**31, 2**31-1), uint32_t=(0, 2**32-1), int64_t=(-2**63, 2**63-1), uint64_t=(0, 2**64-1), int=(-2**31, 2**31-1))
def f32(x):
    try: return struct.unpack('f', struct.pack('f', float(x)))[0]
    except OverflowError: return math.inf
def check(c):
    rng = c.rng
    from emlearn import cgen, fixedpoint
    import emlearn.signal as sg
    from emlearn.tools import window_function as wf, mel_filterbank as mf
    import scipy.signal
    cfg = 'INIT Init\nNEXT Next\nINVARIANTS SameWords FitsUnlessOneWord ReadsBack\nCONSTANTS\n WORDS=%d\n LENS={1,2,5}\n WIDTHS={1,2,3,4,7,12}\n BITS={1,%d}\nCHECK_DEADLOCK FALSE\n'
    c.design_check('Decl_MC', cfg % ((5, 8) if c.thorough else (3, 5)), must=500)
    cases = []     # dict(id, text, name, kind, given, array)
    n = [0]
    def nm(): n[0] += 1; return 'v%d' % n[0]
    def ints(dt, k):
        lo, hi = RANGES[dt]
        return [rng.choice([lo, hi, 0, lo + 1, hi - 1, rng.randint(lo, hi), rng.randint(max(lo, -300), min(hi, 300))]) for _ in range(k)]
    def container(v, np=None):
        r = rng.random()
        return v if r < .5 else tuple(v) if r < .6 else numpy.array(v, dtype=np) if np else v
    def flts(k):
        out = []
        for _ in range(k):
            r = rng.random()
            if r < .2: v = rng.choice([0.0, 1.0, -1.0, 0.5, 3.14, 1e-6, 5e-7, 4.9e-7, -5e-7, 1e-8, 1e-20, 3.4028234e38, -3.4028234e38, 1.17549435e-38, 0.1, 1/3, 16777217.0, 33554431.0, 1e10, 123456.789, 0.9999995, 0.9999996, 999999.96875])
            elif r < .5: v = rng.uniform(-1, 1)
            elif r < .7: v = rng.uniform(-1, 1) * 10 ** rng.uniform(-12, 30)
            elif r < .8: v = rng.randrange(-1000, 1000) / 8
            elif r < .9: v = f32(rng.uniform(-1, 1) * 10 ** rng.uniform(-6, 6))
            else: v = rng.uniform(-1, 1) * 1e-6
            out.append(v)
        return out
    R = 3 if c.thorough else 1
    for i in range(60 * R):
        dt = list(RANGES)[i % len(RANGES)]; k = rng.choice([1, 2, 3, 17, 100]); v = ints(dt, k); name = nm()
        npdt = dt.replace('_t', '') if dt != 'int' else 'int32'
        kw = {}
        if rng.random() < .3: kw['size'] = k
        if rng.random() < .3: kw['modifiers'] = rng.choice(['const', 'static', 'static const'])
        if rng.random() < .2: kw['indent'] = '    '
        if rng.random() < .2: kw['end'] = '\n'
        cases.append(dict(id='array-%s-%d' % (dt, i), make=lambda v=v, dt=dt, name=name, kw=kw, npdt=npdt, cv=container(v, npdt): cgen.array_declare(name, values=cv, dtype=dt, **kw), kind='ints', given=v, out=[(name, 'arr')]))
    for i in range(60 * R):
        k = rng.choice([1, 2, 3, 17, 60]); v = flts(k); name = nm(); kw = {}
        dtn = rng.choice([None, 'float64', 'float32'])
        if dtn == 'float32': v = [f32(x) for x in v]
        cv = v if dtn is None else numpy.array(v, dtype=dtn)
        if rng.random() < .3: kw['size'] = k
        if rng.random() < .5: kw['dtype'] = 'float'
        cases.append(dict(id='floats-%d' % i, make=lambda name=name, cv=cv, kw=kw: cgen.array_declare(name, values=cv, **kw), kind='floats', given=v, out=[(name, 'arr')]))
    for i in range(20): # long tables
        pass
    for k in (256, 300, 1000, 33000, 66000):
        v = [rng.randrange(-100, 100) for _ in range(k)]; name = nm()
        cases.append(dict(id='long-%d' % k, make=lambda name=name, v=v: cgen.array_declare(name, values=v, dtype='int8_t'), kind='ints', given=v, out=[(name, 'arr')], sample=60))
    # numbers of dtype float given as integers, integers given as numpy scalars
    v = [0, 1, -5, 1000000, 16777216]; name = nm()
    cases.append(dict(id='ints-as-floats', make=lambda name=name, v=v: cgen.array_declare(name, values=v, dtype='float'), kind='floats', given=v, out=[(name, 'arr')]))
    for i in range(40 * R):
        dt = rng.choice(list(RANGES)); v = ints(dt, 1); name = nm(); sc = rng.choice([int, numpy.int64]) if dt != 'uint64_t' else int
        cases.append(dict(id='constant-%s-%d' % (dt, i), make=lambda name=name, v=v, dt=dt, sc=sc: cgen.constant_declare(name, sc(v[0]), dtype=dt), kind='ints', given=v, out=[(name, 'one')]))
        v = flts(1); name = nm(); sc = rng.choice([float, numpy.float64])
        cases.append(dict(id='constant-float-%d' % i, make=lambda name=name, v=v, sc=sc: cgen.constant_declare(name, sc(v[0]), dtype='float'), kind='floats', given=v, out=[(name, 'one')]))
    v = [3]; name = nm()
    cases.append(dict(id='constant-default', make=lambda name=name: cgen.constant_declare(name, 3), kind='ints', given=v, out=[(name, 'one')]))
    q = fixedpoint.FixedPointFormat(integer_bits=15, fraction_bits=16)
    for i in range(10 * R):
        v = [rng.choice([0.0, 1.0, -1.0, 0.5, 1.5, -32768.0, 32767.0, rng.uniform(-1, 1), rng.uniform(-30000, 30000), rng.uniform(-1e-5, 1e-5)]) for _ in range(rng.choice([1, 5, 20]))]; name = nm()
        cases.append(dict(id='fixed-%d' % i, make=lambda name=name, v=v: cgen.array_declare_fixedpoint(name, fixedpoint=q, values=numpy.array(v)), kind='fixed', given=v, out=[(name, 'arr')]))
        v = flts(4); name = nm()
        cases.append(dict(id='fixed-none-%d' % i, make=lambda name=name, v=v: cgen.array_declare_fixedpoint(name, values=numpy.array(v)), kind='floats', given=v, out=[(name, 'arr')]))
    # struct initialisers keep count and order
    for i in range(5):
        v = [rng.randrange(-1000, 1000) for _ in range(4)]; name = nm()
        cases.append(dict(id='struct-%d' % i, make=lambda name=name, v=v: 'typedef struct { int a, b, c, d; } T%s;\n' % name + 'static const T%s %s = ' % (name, name) + cgen.struct_init(*v) + ';', kind='ints', given=v, out=[('((const int*)&%s)' % name, 4)]))
    # the window tool: library call and program
    wins = list(wf.known_window_types)
    for i in range(60 * R):
        w = wins[i % len(wins)]; L = rng.choice([1, 2, 3, 7, 16, 33, 64, 128]); fft = rng.random() < .6; lw = rng.choice([1, 5, 8, 9, 10, 11, 12, 14, 20, 35, 70, 200, 100000]); name = nm()
        ref = [float(x) for x in scipy.signal.get_window(w, L, fftbins=fft)]
        cases.append(dict(id='window-%s-%d-%d-%d' % (w, L, fft, lw), make=lambda a=(name, w, L, fft, lw): wf.window_function(*a), kind='floats', given=ref, out=[(name, 'arr')], also=[(name + '_length', L)]))
    for i in range(4 * R):
        w = rng.choice(wins); L = rng.choice([8, 100, 1024]); sym = rng.random() < .5; lw = rng.choice([9, 30, 70]); name = nm(); fn = '%s_file.h' % name
        args = ['--window', w, '--length', str(L), '--name', name, '--out', fn, '--linewrap', str(lw)] + (['--symmetric'] if sym else [])
        def make(args=args, fn=fn):
            old = sys.argv; sys.argv = ['eml-window-function'] + args
            try:
                out = sys.stdout; sys.stdout = open(os.devnull, 'w')
                try: wf.main()
                finally: sys.stdout.close(); sys.stdout = out
            finally: sys.argv = old
            return open(fn).read()
        cases.append(dict(id='window-program-%d' % i, make=make, kind='floats', given=[float(x) for x in scipy.signal.get_window(w, L, fftbins=not sym)], out=[(name, 'arr')], also=[(name + '_length', L)], sample=100))
    # names and files that the programs choose themselves
    def program(main, args, fn):
        def make():
            import io
            old = sys.argv, sys.stdout; sys.argv = ['prog'] + args; sys.stdout = io.StringIO()
            import warnings
            try:
                with warnings.catch_warnings(), numpy.errstate(all='ignore'): warnings.simplefilter('ignore'); main()
            finally: sys.argv, sys.stdout = old
            return open(fn).read()
        return make
    cases.append(dict(id='window-defaults', make=program(wf.main, [], 'hann_1024_lut.h'), kind='floats', given=[float(x) for x in scipy.signal.get_window('hann', 1024)], out=[('hann_1024_lut', 'arr')], also=[('hann_1024_lut_length', 1024)], sample=80))
    cases.append(dict(id='window-half', make=program(wf.main, ['--window', 'blackman', '--length', '77'], 'blackman_77_lut.h'), kind='floats', given=[float(x) for x in scipy.signal.get_window('blackman', 77)], out=[('blackman_77_lut', 'arr')], also=[('blackman_77_lut_length', 77)]))
    # filter banks: the serialiser on any sparse bank, and the mel tool against its reference library
    for i in range(15 * R):
        k = rng.choice([1, 3, 10]); starts = [rng.randrange(0, 100) for _ in range(k)]; stops = [s + rng.randrange(-1, 9) for s in starts]
        co = flts(max(1, sum(b - a + 1 for a, b in zip(starts, stops)))); fr = [rng.uniform(0, 8000) for _ in range(k)]; name = nm()
        extra = dict(frequencies=fr, n_fft=512, sr=rng.choice([8000, 16000, 11025, 44100]), fmin=rng.choice([0, 20, 62.5]), fmax=rng.choice([4000, 5512.5, 8000.0]))
        if i % 3 == 0: extra = {}
        cases.append(dict(id='bank-%d' % i, make=lambda name=name, s=(starts, stops, co), extra=extra: sg.sparse_filterbank_serialize(s, name, **extra), kind='floats', given=co, out=[(name + '_lut', 'arr')],
                          also=[(name + '_bands', k), (name + '_length', len(co))] + ([(name + '_nfft', 512), (name + '_samplerate', extra['sr'])] if extra else []),
                          ints=[(name + '_starts', starts), (name + '_ends', stops)], floats=[(name + '_frequencies', fr)] if extra else [], scal=[(name + '_fmin', extra['fmin']), (name + '_fmax', extra['fmax'])] if extra else []))
    import librosa
    for i in range(13 * R):
        htk = i % 3 == 2; plain = i % 4 == 1
        name = nm(); bands = rng.choice([1, 5, 20, 32]); fft = rng.choice([256, 512, 1024]); sr = rng.choice([8000, 16000, 11025, 22050]); lw = rng.choice([9, 12, 40, 70, 300]); fmin = rng.choice([0, 100]); fmax = rng.choice([None, sr // 4])
        args = mf.parse(['--bands', str(bands), '--fft', str(fft), '--samplerate', str(sr), '--linewrap', str(lw), '--fmin', str(fmin)] + (['--fmax', str(fmax)] if fmax else []) + (['--htk', 'yes'] if htk else []) + (['--normalize', ''] if plain else []))
        import warnings
        with warnings.catch_warnings(), numpy.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            M = librosa.filters.mel(sr=sr, n_fft=fft, n_mels=bands, fmin=fmin, fmax=fmax, htk=htk, norm=None if plain else 'slaney')
            fr = [float(x) for x in librosa.filters.mel_frequencies(n_mels=bands, fmin=fmin, fmax=fmax if fmax else sr / 2, htk=htk)]
        starts = []; stops = []; co = []
        for r in M:
            nz = numpy.nonzero(r)[0]
            a, b = (int(nz[0]), int(nz[-1])) if len(nz) else (None, None)
            starts.append(a); stops.append(b); co += [float(x) for x in r[a:b + 1]] if a is not None else []
        if None in starts: starts = stops = None                 # the place of an empty filter is free
        def make(args=args, name=name):
            with warnings.catch_warnings(), numpy.errstate(all='ignore'):
                warnings.simplefilter('ignore'); return mf.mel_filterbank(args, name)
        if i % 13 >= 10:      # as a program, with and without a name
            opts = ['--bands', str(bands), '--fft', str(fft), '--samplerate', str(sr), '--linewrap', str(lw), '--fmin', str(fmin)] + (['--fmax', str(fmax)] if fmax else []) + (['--htk', 'yes'] if htk else []) + (['--normalize', ''] if plain else [])
            if i == 10: name = 'mel_%d_%d' % (fft, bands); make = program(mf.main, opts, name + '.h')
            elif i % 2: make = program(mf.main, opts + ['--name', name], name + '.h')
            else: make = program(mf.main, opts + ['--name', name, '--out', name + '_other.h'], name + '_other.h')
        cases.append(dict(id='mel-%d' % i, make=make, kind='floats', given=co, out=[(name + '_lut', 'arr')], also=[(name + '_bands', bands), (name + '_length', len(co)), (name + '_nfft', fft), (name + '_samplerate', sr), (name + '_fmin', fmin)],
                          ints=[(name + '_starts', starts), (name + '_ends', stops)] if starts else [], floats=[(name + '_frequencies', fr)], scal=[(name + '_fmax', fmax if fmax else sr / 2)]))
    # compile: all together; one by one only when that fails
    def reader(k):
        out = []
        def arr(name, kind):
            cnt = '(int)(sizeof(%s)/sizeof(%s[0]))' % (name, name)
            if kind == 'one': cnt = '1'; ref = lambda: name
            elif isinstance(kind, int): cnt = str(kind); ref = lambda: name + '[i]'
            else: ref = lambda: name + '[i]'
            out.append('printf("{\\"name\\":\\"%s\\",\\"count\\":%%d,\\"v\\":[", %s); for (int i=0;i<%s;i++) show(%s); puts("0]}");' % (name, cnt, cnt, ref()))
        for name, kind in k['out']: arr(name, kind)
        for name, _ in k.get('also', []): arr(name, 'one')
        for name, _ in k.get('ints', []) + k.get('floats', []): arr(name, 'arr')
        for name, _ in k.get('scal', []): arr(name, 'one')
        return ' '.join(out)
    SHOW = '''#define show(x) _Generic((x), float: sf, double: sf, uint64_t: su, default: si)(x)
static void sf(double x) { printf("\\"%a\\",", x); }
static void su(uint64_t x) { printf("%llu,", (unsigned long long)x); }
static void si(int64_t x) { printf("%lld,", (long long)x); }
'''
    sess = []; good = []
    for k in cases:
        s = dict(id=k['id'], ev=[]); sess.append(s); k['s'] = s
        try: k['text'] = k.pop('make')()
        except (Exception, SystemExit) as ex: s['ev'].append(dict(op='raised', why=repr(ex)[:300])); continue
        good.append(k)
    def run(ks, tag):
        src = c.path('c', 'd%s.c' % tag)
        with open(src, 'w') as f:
            f.write(FLT + SHOW + '\n'.join(k['text'] for k in ks) + '\nint main(void) {\n' + '\n'.join(reader(k) for k in ks) + '\nreturn 0; }\n')
        b = c.cc(src, flags=['-std=gnu11'], san=False)
        r = subprocess.run([b], capture_output=True, text=True, timeout=60)
        res = {}
        for line in r.stdout.split('\n'):
            if line.startswith('{'): d = json.loads(line); res[d['name']] = (d['count'], d['v'][:-1])
        return res
    res = {}
    def divide(ks, tag):
        try: res.update(run(ks, tag))
        except vf.Broken as ex:
            if len(ks) == 1: ks[0]['s']['ev'].append(dict(op='nocompile', why=str(ex)[-300:], text=ks[0]['text'][:300])); return
            h = len(ks) // 2; divide(ks[:h], tag + 'a'); divide(ks[h:], tag + 'b')
    divide(good, 'x')
    def exact(x): return Fraction(float.fromhex(x)) if isinstance(x, str) else Fraction(x)
    def fl(given, read):
        G = []; Rr = []
        for g in given:
            u = 0
            if g: u = max(0, 42 - math.frexp(float(g))[1])
            G.append((Fraction(g), u))
        for j, r in enumerate(read):
            u = G[j][1] if j < len(G) else 0
            Rr.append(vf.bigx(exact(r), u) if not (isinstance(r, str) and ('inf' in r or 'nan' in r)) else vf.big(10 ** 60))
        return [vf.bigx(g, u) for g, u in G], Rr
    def pick(k, given, read, count):
        m = k.get('sample')
        if m and len(given) > m and len(read) == len(given) == count:
            idx = sorted(set([0, len(given) - 1] + rng.sample(range(len(given)), m))); return [given[i] for i in idx], [read[i] for i in idx], len(idx)
        return given, read, count
    for k in good:
        s = k['s']
        for name, kind in k['out']:
            if name not in res: continue
            cnt, v = res[name]; g, v, cnt = pick(k, k['given'], v, cnt)
            if k['kind'] == 'ints': s['ev'].append(dict(op='ints', count=cnt, given=[vf.big(x) for x in g], read=[vf.big(x) if not isinstance(x, str) else vf.big(10 ** 60) for x in v]))
            elif k['kind'] == 'floats': a, b = fl(g, v); s['ev'].append(dict(op='floats', count=cnt, given=a, read=b))
            else: s['ev'].append(dict(op='fixed', count=cnt, given=[vf.bigx(Fraction(x), 48) for x in g], read=[vf.big(x) for x in v]))
        for name, want in k.get('also', []):
            if name in res: s['ev'].append(dict(op='ints', count=1, given=[vf.big(want)], read=[vf.bigx(exact(res[name][1][0]))]))
        for name, want in k.get('ints', []):
            if name in res: s['ev'].append(dict(op='ints', count=res[name][0], given=[vf.big(x) for x in want], read=[vf.big(x) for x in res[name][1]]))
        for name, want in k.get('floats', []):
            if name in res: a, b = fl(want, res[name][1]); s['ev'].append(dict(op='floats', count=res[name][0], given=a, read=b))
        for name, want in k.get('scal', []):
            if name in res: a, b = fl([want], res[name][1]); s['ev'].append(dict(op='floats', count=1, given=a, read=b))
    c.judge('DeclTrace', sess)
vf.main('C14', check, assumptions=['values as read by the host C compiler; floats to one unit of single precision'])
