"""Build a pybind11 extension of the current tree and call it in a worker process, so that a crash of
one call is an event of that call."""
import os, sys, json, subprocess, sysconfig
def build(c, name):
    import vf, numpy
    d = c.path('ext', name, 'x'); d = os.path.dirname(d)
    so = os.path.join(d, name + sysconfig.get_config_var('EXT_SUFFIX'))
    inc = subprocess.run([vf.PY, '-c', 'import pybind11;print(pybind11.get_include())'], capture_output=True, text=True).stdout.strip()
    r = subprocess.run(['g++', '-O1', '-w', '-std=c++17', '-shared', '-fPIC', '-fvisibility=hidden', '-I' + vf.INC, '-I' + os.path.join(vf.REPO, 'bindings'), '-I' + inc, '-I' + sysconfig.get_paths()['include'],
                        os.path.join(vf.REPO, 'bindings', name + '.cpp'), '-o', so], capture_output=True, text=True)
    if r.returncode: raise vf.Broken('compiling %s failed:\n%s' % (name, r.stderr[-2000:]))
    return d
WORKER = r'''
import sys, json, importlib, numpy
sys.path.insert(0, sys.argv[1]); m = importlib.import_module(sys.argv[2])
def dec(a):
    if isinstance(a, dict): return numpy.array(a['a'], dtype=a['t']).reshape(a['s'])
    return a
for line in sys.stdin:
    f, args = json.loads(line)
    try:
        r = getattr(m, f)(*[dec(a) for a in args]); out = dict(y=[float(v).hex() for v in numpy.asarray(r).ravel()])
    except BaseException as e: out = dict(raised=repr(e)[:200])
    print(json.dumps(out), flush=True)
'''
def arr(x, t='float32'):
    import numpy
    x = numpy.asarray(x); return dict(a=x.ravel().tolist(), t=t, s=list(x.shape))
def call(c, name, calls, timeout=120):
    """calls: (function, args); returns list of dict(y=[hex..]) | dict(raised=..) | dict(crash=..)"""
    import vf
    d = build(c, name); out = []; w = c.path('ext', 'worker.py'); open(w, 'w').write(WORKER)
    while len(out) < len(calls):
        inp = ''.join(json.dumps(x) + '\n' for x in calls[len(out):])
        try: r = subprocess.run([vf.PY, w, d, name], input=inp, capture_output=True, text=True, timeout=timeout); so, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as e: so, rc = (e.stdout or b'').decode(), 'hang'
        got = [json.loads(l) for l in so.split('\n') if l.startswith('{') and l.endswith('}')]
        out += got
        if len(out) < len(calls):
            if rc == 0: raise vf.Broken('worker stopped: ' + r.stderr[-500:])
            out.append(dict(crash=str(rc)))
    return out
