import os, sys, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, numpy
from fractions import Fraction
CFG = 'INIT Init\nNEXT Next\nINVARIANTS Saturates Odd SignKept Monotone Inverse Judged\nCONSTANTS\n VMAX=%d\n MAXS={1, 3, 7}\n NUMS={1, 2, 5}\n DENS={1, 2, 3}\nCHECK_DEADLOCK FALSE\n'
def check(c):
    rng = c.rng
    from emlearn.preprocessing import Quantizer
    nrng = numpy.random.default_rng(c.seed)
    c.design_check('Quant_MC', CFG % (24 if c.thorough else 8), must=1000)
    sess = []
    def data(kind, n):
        f = rng.choice([1, 2, 5]); sh = (n, f)
        if kind == 'normal': X = nrng.normal(size=sh) * 10 ** rng.uniform(-3, 3)
        elif kind == 'ints': X = nrng.integers(-1000, 1000, size=sh)
        elif kind == 'small': X = nrng.normal(size=sh) * 1e-9
        elif kind == 'skew': X = numpy.exp(nrng.normal(size=sh) * 2)
        elif kind == 'neg': X = -numpy.exp(nrng.normal(size=sh) * 2)
        elif kind == 'halves': X = nrng.integers(-40, 40, size=sh) / 2.0
        elif kind == 'huge': X = nrng.normal(size=sh) * 10 ** rng.uniform(5, 30)
        else: X = nrng.integers(-100, 100, size=sh).astype('int16')
        return X
    for i in range(700 if c.thorough else 150):
        dt = rng.choice(['int16', 'int8', 'i4', 'float16', 'int16', 'int8', 'i4', 'i8', 'float32', 'uint8', 'uint16', 'uint32'])
        fl = dt.startswith('float')
        X = data(rng.choice(['normal', 'normal', 'ints', 'small', 'skew', 'neg', 'halves', 'huge', 'i16']), rng.choice([1, 2, 6, 20]))
        xd = X.dtype
        if xd.kind == 'f' and rng.random() < 0.4 and float(numpy.abs(X).max()) < 1e35: X = X.astype(rng.choice(['float32', 'float32', 'float64']))
        kw = {}
        r = rng.random()
        if r < 0.55: kw['max_value'] = rng.choice([1, 2, 9, 9.0, 49, 0.1, 1.0, 95, 1e-3, 1000.0, 109, rng.uniform(0.01, 100), float(numpy.abs(X).max()) or 1.0, float(numpy.abs(X).max()) / 3 or 1.0])
        elif r < 0.75: kw['max_quantile'] = None
        elif r < 0.9: kw['max_quantile'] = rng.choice([0.1, 0.01, 0.25])
        if rng.random() < 0.25: kw['out_max'] = rng.choice([100, 127, 1, 10, 64])
        ev = []; s = dict(id='quantizer-%d' % i, ev=ev, key='none', cfg=dict(dtype=dt, **{k: repr(v) for k, v in kw.items()}))
        q = Quantizer(dtype=dt, **kw)
        if 'max_value' not in kw:
            if kw.get('max_quantile', 0.0001) is None: largest = float(numpy.abs(X).max())
            else: z = kw.get('max_quantile', 0.0001); largest = max(float(numpy.quantile(X, 1 - z)), -float(numpy.quantile(X, z)))
            if largest == 0: continue
        if fl: hi = Fraction(float(numpy.finfo(dt).max)) if 'out_max' not in kw else Fraction(kw['out_max'])
        else: hi = int(numpy.iinfo(dt).max) if 'out_max' not in kw else kw['out_max']
        lo = 0 if dt.startswith('u') else -hi; U = 24
        ev.append(dict(op='setup', hi=vf.bigx(hi, U if fl else 0), lo=vf.bigx(lo, U if fl else 0)))
        sess.append(s)
        try:
            r = q.fit(X)
            if r is not q: ev.append(dict(op='fit-result'))
            # the data, and values around the limits and zero
            L = float(kw.get('max_value', 0)) or abs(float(hi) / float(q.scale_))
            extra = numpy.array([0.0, -0.0, L, -L, L * 1.0000001, L * 0.9999999, L * 1.5, -L * 1.5, L * 1e6, -L * 1e6, L / float(hi), L / float(hi) * 0.99, -L / float(hi) * 1.01, L * rng.random(), -L * rng.random()]) * 1.0
            Z = numpy.sort(numpy.concatenate([X.ravel().astype(float), extra])) if rng.random() < 0.7 else numpy.sort(X.ravel())
            if X.dtype == numpy.float32:
                with numpy.errstate(all='ignore'): Z = Z.astype('float32')
            elif X.dtype.kind == 'i' and rng.random() < 0.5: Z = numpy.sort(X.ravel())
            shape = rng.choice([(-1, 1), (1, -1), (-1,)]); Z = Z.reshape(shape); Z0 = Z.copy()
            out = q.transform(Z)
        except Exception as e:
            ev.append(dict(op='raised', why=repr(e)[:200])); continue
        if not numpy.array_equal(Z, Z0): ev.append(dict(op='input-modified'))
        sc = Fraction(float(q.scale_)); items = []
        for x, o in zip(Z.ravel(), numpy.asarray(out).ravel()):
            p = Fraction(x.item()) * sc; o = Fraction(o.item()) if numpy.isfinite(o) else Fraction(2) ** 300
            rel = 2 ** -52 if not fl else 2.0 ** -10 if dt == 'float16' else 2.0 ** -22
            t = abs(p) * Fraction(rel); 
            items.append(dict(p=vf.bigx(p, U), t=vf.big(int(t * 2**U) + (2 if not fl else 2)), q=vf.bigx(o, U if fl else 0)))
        # exact products leave no tolerance
        if not fl:
            for it, x in zip(items, Z.ravel()):
                if Fraction(float(x) * float(q.scale_)) == Fraction(x.item()) * sc: it['t'] = vf.big(0)
        ev.append(dict(op='pyfloat' if fl else 'py', items=items, shape_ok=tuple(out.shape) == tuple(Z.shape), dtype_ok=out.dtype == numpy.dtype(dt)))
        if 'max_value' in kw or kw.get('max_quantile', 0) is None:
            m = float(kw['max_value']) if 'max_value' in kw else float(numpy.abs(X).max())
            for sg in (1, -1):
                o = q.transform(numpy.array([[sg * m]]))[0, 0]
                ev.append(dict(op='max', neg=sg < 0, refused=False, q=vf.bigx(Fraction(o.item()) if numpy.isfinite(o) else 2**200, U if fl else 0)))
        else:
            n = X.size; W = X.astype(float); clipped = int(((W if lo == 0 else numpy.abs(W)) * float(q.scale_) > float(hi) * 1.000001).sum())
            for sg in (1, -1):                                       # the learned value reaches the maximum, smaller values do not
                for f, op in ((1 + 1e-6, 'max'), (0.99, 'below')):
                    o = q.transform(numpy.array([[sg * largest * f]]))[0, 0]
                    ev.append(dict(op=op, neg=sg < 0, refused=False, q=vf.bigx(Fraction(o.item()) if numpy.isfinite(o) else 2**200, U if fl else 0)))
            ev.append(dict(op='learned', clipped=clipped, allowed=int(2 * kw.get('max_quantile', 0.0001) * n) + 2))
        try:
            back = q.inverse_transform(out); it2 = []
            for x, o in zip(Z.ravel(), back.ravel()):
                p = Fraction(x.item()) * sc
                if not Fraction(lo) * (1 + Fraction(1, 10**12)) <= p <= Fraction(hi) * (1 + Fraction(1, 10**12)): continue
                d = abs(Fraction(float(o)) - Fraction(x.item())) * sc
                rel = Fraction(2) ** -50 if not fl else Fraction(2) ** -10 if dt == 'float16' else Fraction(2) ** -22
                at = abs(p) >= Fraction(hi); rel += Fraction(2, 10**12) if at else 0
                it2.append(dict(at=at, d=vf.bigx(d, U), t=vf.big(int(abs(p) * rel * 2**U) + 2 if fl or dt == 'i8' else int(abs(p) * rel * 2**U) + 1)))
            ev.append(dict(op='inv', items=it2, shape_ok=tuple(back.shape) == tuple(Z.shape)))
        except Exception as e: ev.append(dict(op='raised', why=repr(e)[:200]))
    for dt, om in [('int8', 128), ('int8', 300), ('int16', 32768), ('int16', 10**6), ('uint8', 256), ('uint16', 65536), ('int32', 2**31), ('int64', 2**63), ('float16', 65536.0), ('float16', 1e30)]:
        try: Quantizer(dtype=dt, out_max=om, max_value=2.0).fit_transform(numpy.array([[1.0], [5.0]])); ok = True
        except Exception: ok = False
        sess.append(dict(id='range-%s-%s' % (dt, om), key='none', ev=[dict(op='range', accepted=ok)]))
    c.judge('QuantTrace', sess)
vf.main('C18', check, assumptions=['data contains no NaN and the largest value (or the learned quantile) is not zero', 'float targets round instead of truncating', 'double precision rounding of the product is left open'])
