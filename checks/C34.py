import os, sys, json, re, subprocess, warnings
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, cmodels, treegen as tg, trees_check as tc
from concurrent.futures import ThreadPoolExecutor
CFG = 'INIT Init\nNEXT Next\nINVARIANTS %s\nCONSTANTS\n DEPTH=%d\n EMIT=%s\nCHECK_DEADLOCK FALSE\n'
EVENTS = ['my-event', 'e', 'eml_some_long.event-name/start']
NAMES = {1: 'sizemismatch', 2: 'unsupported', 3: 'uninitialized', 4: 'postconditionfailed', 5: 'unknownerror'}
def command(rng, x):
    k = x['key']
    if x['t'] == 'string': return 'S %s %s' % (k, x['s'])
    if x['t'] == 'int': return 'I %s %d %d' % (k, x['i'], rng.choice([0, 1, -1]))
    if x['t'] == 'float': return 'F %s %s %d' % (k, (x['p'] / 16).hex(), rng.randrange(2))
    if x['t'] == 'ints': return 'A %s %d %s' % (k, len(x['a']), ' '.join(map(str, x['a'])))
    if x['t'] == 'floats': return 'G %s %d %s' % (k, len(x['a']), ' '.join((v / 16).hex() for v in x['a']))
    while True:
        m, a, b = rng.randrange(6), rng.choice([0, 1, 2, -3, 256]), rng.choice([0, 1, 5, 256])
        if bool([a, a or b, a and b, a > b, a == b, b if a else not b][m]) == x['b']: return 'O %s %d %d %d' % (k, m, a, b)
def item(rng):
    key = ''.join(rng.choice('abcdefXYZ_-.019') for _ in range(rng.choice([1, 3, 12, 40]))); t = rng.choice(['string', 'int', 'bool', 'float', 'ints', 'floats'])
    six = lambda: rng.choice([0, 1, -1, 15, 16, -17, rng.randrange(-2**20, 2**20)])
    num = lambda: rng.choice([0, -1, 2147483647, -2147483647, rng.randrange(-99999, 99999)])
    n = rng.choice([0, 1, 2, 3, 8, 9, 10, 11, 40, 130, 300])
    v = dict(string=dict(s=''.join(rng.choice('abc%=[],;:~!') for _ in range(rng.choice([1, 5, 30, 200])))), int=dict(i=num()), bool=dict(b=rng.random() < .5), float=dict(p=six()), ints=dict(a=[num() for _ in range(n)]), floats=dict(a=[six() for _ in range(n)]))[t]
    return dict(t=t, key=key, **v)
def encode(f):
    out = []
    for s in f:
        if s['k'] == 'act': out.append('a')
        elif s['k'] == 'call': out.append('( ' + encode(s['f']))
        else: out.append('%s %d %d' % ({'pre': 'p', 'post': 'q', 'pre2': 'r'}[s['k']], s['ok'], s['code']))
    return ' '.join(out + [')'])
def function(rng, depth):
    f = []
    for _ in range(rng.choice([0, 1, 2, 3, 6])):
        r = rng.random()
        if r < .25: f.append(dict(k='act'))
        elif r < .5 and depth: f.append(dict(k='call', f=function(rng, depth - 1)))
        else: f.append(dict(k=rng.choice(['pre', 'post', 'pre2']), ok=rng.random() < .75, code=rng.randrange(1, 6)))
    return f
def parse(text):
    out = []; parts = text.split('\n')
    for i, t in enumerate(parts):
        if i == len(parts) - 1 and t == '': break
        tok = t.strip().split(' ')
        kv = []
        for w in tok[1:]:
            k, eq, v = w.partition('=')
            kv.append(dict(key=k, pair=eq == '=' and k != '' and v != '', i=int(v) if re.fullmatch(r'-?\d{1,9}', v) else vf.NOINT))
        out.append(dict(name=tok[0], ended=i < len(parts) - 1, kv=kv))
    return out
def check(c):
    rng = c.rng; T = c.thorough
    c.design_check('Log_MC', CFG % ('Lines Hooked', 6 if T else 4, 'FALSE'), must=500)
    logs = [b['entries'] for b in c.behaviours('Log_MC', CFG % ('EmitLog', 4, 'TRUE'))]; runs = [b['f'] for b in c.behaviours('Log_MC', CFG % ('EmitRun', 1, 'TRUE'))]
    c.notes['logs_in_spec'] = len(logs); c.notes['functions_in_spec'] = len(runs)
    logs = rng.sample(logs, min(len(logs), 3000 if T else 300)); runs = rng.sample(runs, min(len(runs), 6000 if T else 900))
    for L in logs:
        for e in L: e['name'] = EVENTS[0] if e['name'] == 'e1' else EVENTS[1]
    logs += [[dict(name=rng.choice(EVENTS), items=[item(rng) for _ in range(rng.choice([0, 1, 2, 5, 20]))]) for _ in range(rng.choice([1, 3, 8]))] for _ in range(400 if T else 120)]
    runs += [function(rng, 3) for _ in range(4000 if T else 600)]
    src = os.path.join(vf.VERIF, 'harness', 'log.c'); L1 = ['-DEML_LOG_ENABLE=1', '-DEML_NEIGHBORS_LOG_LEVEL=3']
    B = {}
    for name, fl in [('stderr', L1), ('own', L1 + ['-DVF_CAPTURE']), ('off', []), ('off-own', ['-DVF_CAPTURE', '-DEML_LOG_ENABLE=0', '-DEML_NEIGHBORS_LOG_LEVEL=3']), ('debug', ['-DEML_DEBUG']), ('plain', []), ('debug-log', ['-DEML_DEBUG'] + L1)]:
        try: B[name] = c.cc(src, out=c.path('bin', 'log-' + name), flags=fl, san='address,bounds,integer-divide-by-zero')
        except vf.Broken as ex: c.judge('LogTrace', [dict(id='build-' + name, ev=[dict(op='nocompile', why=str(ex)[-300:])])]); return
    sess = []; vd = os.path.dirname(c.path('logs', 'x'))
    # entries
    for build in ['stderr', 'own', 'off', 'off-own', 'debug-log']:
        S = []
        for k, L in enumerate(logs):
            if build in ('off', 'off-own', 'debug-log') and k % 5: continue
            cmds = []
            for e in L: cmds += ['B%d' % EVENTS.index(e['name'])] + [command(rng, x) for x in e['items']] + ['E']
            S.append(dict(id='%s-%d' % (build, k), cmds=cmds, log=L))
        for s, r in zip(S, c.run_sessions(B[build], S, env=dict(VF_DIR=vd))):
            ev = []
            for i, o in enumerate(r):
                if 'text' not in o: ev.append(dict(op='crash', why=str(o)[:300]))
                elif build.startswith('off'): ev.append(dict(op='silent', text=o['text']))
                else: ev.append(dict(op='entry', name=s['log'][i]['name'], items=s['log'][i]['items'], text=o['text']))
            if len(r) < len(s['log']): ev.append(dict(op='crash', why='ended early'))
            sess.append(dict(id=s['id'], ev=ev))
    # checked functions
    for build, nohook in [('debug', False), ('debug', True), ('plain', False), ('debug-log', False)]:
        S = [dict(id='%s%s-%d' % (build, '-nohook' if nohook else '', i), cmds=['R ' + encode(f) for f in runs[i:i + 30]], fs=runs[i:i + 30]) for i in range(0, len(runs), 30)]
        for s, r in zip(S, c.run_sessions(B[build], S, env=dict(VF_DIR=vd, **({'VF_NOHOOK': '1'} if nohook else {})))):
            ev = [dict(o, f=f, hooked=build != 'plain' and not nohook) if o.get('op') == 'run' else dict(op='crash', why=str(o)[:300]) for o, f in zip(r, s['fs'])]
            if len(r) < len(s['fs']): ev.append(dict(op='crash', why='ended early'))
            sess.append(dict(id=s['id'], ev=ev))
    # whole programs with the default hook
    def program(k, f, build, fatal, logged):
        p = subprocess.run([B[build]], input='R ' + encode(f) + '\n', capture_output=True, text=True, timeout=60, env=c.env(VF_PLAIN='1', **(dict(EML_DEBUG_FATAL_ERRORS='1') if fatal else {}), **(dict(EML_DEBUG_LOG='1') if logged else {})))
        lines = [[n for n, t in NAMES.items() if t in re.sub('[^a-z]', '', l.lower())] for l in p.stderr.split('\n') if l.strip()]
        return dict(op='program', f=f, fatal=fatal and build == 'debug', logged=logged and build == 'debug', status=p.returncode, after='"after":true' in p.stdout, lines=lines, err=p.stderr[:200])
    jobs = [(k, f, rng.choice(['debug', 'debug', 'debug', 'plain']), rng.random() < .5, rng.random() < .5) for k, f in enumerate(rng.sample(runs, 400 if T else 120))]
    with ThreadPoolExecutor(vf.NCPU) as ex: ev = list(ex.map(lambda j: program(*j), jobs))
    sess.append(dict(id='programs', ev=ev))
    # what the library says about its own operations
    S = []
    for k in range(60 if T else 20):
        nf, cap = rng.choice([1, 2, 5]), rng.choice([1, 3, 8, 140]); kk = rng.choice([1, 1, 2, 3]); n = rng.randrange(1, cap + 2); kk = min(kk, n, cap)
        cmds = ['i %d %d %d' % (nf, cap, kk)]
        for _ in range(n): cmds.append('a %d %s' % (rng.randrange(0, 10), ' '.join(str(rng.randrange(-300, 300)) for _ in range(nf))))
        for _ in range(4): cmds.append('p ' + ' '.join(str(rng.randrange(-300, 300)) for _ in range(nf)))
        S.append(dict(id='neighbours-%d' % k, cmds=cmds))
    for build in ['own', 'stderr', 'debug-log']:
        for s, r in zip(S, c.run_sessions(B[build], S, env=dict(VF_DIR=vd))):
            ev = []
            for o in r:
                if o.get('op') == 'lib': t = o.pop('text'); ev.append(dict(o, lines=parse(t), raw=t[:300]))
                elif o.get('op') != 'init': ev.append(dict(op='crash', why=str(o)[:300]))
            sess.append(dict(id='%s-%s' % (build, s['id']), ev=ev))
    import emlearn
    pre = '#include <stdarg.h>\n#include <stdio.h>\n#ifndef VFLOG\n#define VFLOG\nstatic char vf_buf[1<<20]; static int vf_n; static int vf_log(const char *f, ...) { va_list a; va_start(a, f); vf_n += vsnprintf(vf_buf + vf_n, sizeof vf_buf - vf_n, f, a); va_end(a); return 0; }\n#define EML_LOG_PRINTF(...) vf_log(__VA_ARGS__)\n#endif\n'
    models, jobs, facts = [], [], {}
    for k in range(24 if T else 8):
        nc, nf, nt = rng.choice([2, 3, 7]), rng.choice([1, 3]), rng.choice([1, 2, 5]); th = tc.threshold_source(rng, 'int16_t')
        def leaf():
            w = [rng.choice([0, 0, 1, 2, 5]) for _ in range(nc)]; w[rng.randrange(nc)] += 1
            return [v / sum(w) for v in w]
        est = tg.make_estimator([tg.rand_tree(rng, 3, nf, th, leaf) for _ in range(nt)], nf, nc, kind='rf' if nt > 1 else 'dt')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore'); code = emlearn.convert(est, method='loadable', dtype='int16_t', leaf_bits=rng.choice([0, 4, 8])).save(name='t%d' % k)
        models.append(dict(id='t%d' % k, code=pre + code, body='int16_t v[16]; for (int i=0;i<n;i++) v[i]=(int16_t)x[i]; vf_n = 0; int r = (int)eml_trees_predict(&t%d, v, n); printf("\\"ret\\":%%d,\\"trees\\":%%d,\\"text\\":\\"", r, (int)t%d.n_trees); for (int i=0;i<vf_n;i++) if (vf_buf[i] < 32) printf("\\\\u%%04x", vf_buf[i]); else putchar(vf_buf[i]); printf("\\"");' % (k, k)))
        jobs += [('t%d' % k, q) for q in tg.queries(rng, est, nf, 'int16_t', 5)]
    res = cmodels.build(c, models, san='address,bounds,integer-divide-by-zero', flags=['-DEML_LOG_ENABLE=1', '-DEML_TREES_TRACE=1'])(jobs); by = {}
    for (id, q), r in zip(jobs, res):
        by.setdefault(id, []).append(dict(op='lib', what='tree', ret=r['ret'], trees=r['trees'], lines=parse(r['text']), raw=r['text'][:400]) if 'text' in r else dict(op='crash', why=str(r)[:300]))
    sess += [dict(id='trees-' + id, ev=ev) for id, ev in by.items()]
    c.judge('LogTrace', sess)
vf.main('C34', check, assumptions=['values given to the log have no spaces or line ends', 'float values are printed with four decimals, as documented by the format in use'])
