import os, sys, json, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, cmodels, workload
from concurrent.futures import ThreadPoolExecutor
WRAP = ['malloc', 'calloc', 'realloc', 'free', 'strdup', 'strndup', 'aligned_alloc', 'posix_memalign']
LOG = ['-DEML_LOG_ENABLE=1', '-DEML_TREES_TRACE=1', '-DEML_NEIGHBORS_LOG_LEVEL=3']
class Proxy:
    """compiles with the watcher, and reads its report after each run"""
    def __init__(self, c, obj, excl): self.c = c; self.obj = obj; self.excl = excl; self.n = 0
    def path(self, *p): return self.c.path('h32', *p)
    def env(self, **k): return self.c.env(VF_HEAP_OUT=self.out, **k)
    def cc(self, src, out=None, san=None, flags=(), **k):
        return self.c.cc(src, out=out, san=False, flags=list(flags) + ['-finstrument-functions', *self.excl, *['-Wl,--wrap=' + w for w in WRAP], '-rdynamic', self.obj, '-ldl'], **k)
def imports(obj):
    r = subprocess.run(['nm', '-u', obj], capture_output=True, text=True)
    return sorted({l.split()[-1].split('@')[0] for l in r.stdout.split('\n') if l.strip()})
def check(c):
    c.design_check('Heap_MC', 'INIT Init\nNEXT Next\nINVARIANT Borrowed\nCONSTANTS\n BLOCKS={b1,b2,b3%s}\n NEST=3\nCHECK_DEADLOCK FALSE\n' % (',b4' if c.thorough else ''), must=400)
    T = c.thorough
    H, M = workload.collect(c, ['C01', 'C02', 'C03', 'C06', 'C07', 'C09', 'C10', 'C11', 'C15', 'C16', 'C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25'], sessions=150 if T else 30, models=25 if T else 8, jobs=10 if T else 4)
    sess = []
    # what compiled library code refers to: all headers, every function kept
    heads = sorted(h for h in os.listdir(vf.INC) if h.startswith('eml_') and h.endswith('.h'))
    src = c.path('imp', 'all.c')
    open(src, 'w').write('#include <stdint.h>\n#include <stddef.h>\n#include <stdbool.h>\n#include <stdio.h>\n#include <math.h>\n' + ''.join('#include <%s>\n' % h for h in heads))
    for lang, cc in (('c', ['gcc', '-std=gnu99']), ('c++', ['g++', '-x', 'c++', '-fpermissive'])):
        for name, fl in (('plain', []), ('debug', ['-DEML_DEBUG']), ('log', LOG + ['-DEML_DEBUG'])):
            obj = src + name + lang.replace('+', 'x') + '.o'
            r = subprocess.run(cc + ['-w', '-O0', '-fno-builtin', '-fkeep-static-functions', '-fkeep-inline-functions', *fl, '-I' + vf.INC, '-c', src, '-o', obj], capture_output=True, text=True)
            if r.returncode:
                if lang == 'c': sess.append(dict(id='imports-%s' % name, ev=[dict(op='nocompile', why=r.stderr[-400:])]))
                continue
            sess.append(dict(id='imports-%s-%s' % (lang, name), ev=[dict(op='imports', names=imports(obj))]))
    # ... and generated code
    def gen(m):
        s = c.path('imp', '%s.c' % ('g%d' % abs(hash(m['pid'] + m['id'])))); open(s, 'w').write(cmodels.MAIN + m['code'])
        r = subprocess.run(['gcc', '-std=gnu99', '-w', '-O0', '-fno-builtin', '-I' + vf.INC, '-c', s, '-o', s + '.o'], capture_output=True, text=True)
        return dict(id='imports-%s-%s' % (m['pid'], m['id']), ev=[dict(op='nocompile', why=r.stderr[-400:]) if r.returncode else dict(op='imports', names=imports(s + '.o') or ['none'])])
    ms = [dict(m, pid=w['pid']) for w in M for m in w['models']]
    with ThreadPoolExecutor(vf.NCPU) as ex: sess += list(ex.map(gen, ms))
    # runs
    obj = c.path('imp', 'heapwatch.o'); r = subprocess.run(['gcc', '-O1', '-c', os.path.join(vf.HARNESS, 'heapwatch.c'), '-o', obj], capture_output=True, text=True)
    if r.returncode: raise vf.Broken(r.stderr)
    def read(fn):
        ev = []
        try:
            for l in open(fn):
                if l.startswith('{') and l.endswith('}\n'): ev.append(json.loads(l))
        except OSError: pass
        return ev
    def harness(h):
        p = Proxy(c, obj, ['-finstrument-functions-exclude-file-list=' + vf.HARNESS]); out = []
        try: b = p.cc(h['src'], flags=h['flags'])
        except vf.Broken as ex: return [dict(id=h['pid'], ev=[dict(op='nocompile', why=str(ex)[-300:])])]
        ss = [dict(id='%s' % i, cmds=[x for s in h['sessions'][i::8] for x in s['cmds']]) for i in range(8)]
        for s in ss:
            if not s['cmds']: continue
            p.out = c.path('h32', 'out-%s-%s-%s' % (h['pid'], s['id'], id(h)))
            c.run_sessions(b, [s], env=dict(VF_HEAP_OUT=p.out), timeout=60)
            ev = read(p.out)
            # a session that ends the process early (an error of its own, judged elsewhere) has no end
            out.append(dict(id='%s-%s' % (h['pid'], s['id']), ev=ev or [dict(op='nothing-recorded')]))
        return out
    def model(m):
        p = Proxy(c, obj, ['-finstrument-functions-exclude-function-list=call_,main']); p.out = c.path('h32', 'out-m-%s' % m['pid'])
        cmodels.build(p, m['models'], per=100)(m['jobs'])
        ev = read(p.out)
        return [dict(id='models-%s' % m['pid'], ev=ev or [dict(op='nothing-recorded')])]
    with ThreadPoolExecutor(vf.NCPU) as ex:
        for o in list(ex.map(harness, H)) + list(ex.map(model, M)): sess += o
    c.notes['calls'] = sum(e.get('calls', 0) for s in sess for e in s['ev'] if e['op'] == 'end')
    c.notes['functions'] = len({e['fn'] for s in sess for e in s['ev'] if e['op'] == 'enter'})
    c.judge('HeapTrace', sess)
vf.main('C32', check, assumptions=['memory that the C runtime takes for itself inside stdio functions on streams of the caller is not counted'])
