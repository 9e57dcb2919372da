import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, numpy, hashlib, json, threading, subprocess, warnings, traceback
from concurrent.futures import ThreadPoolExecutor
import session_worker as sw
CFG = 'INIT Init\nNEXT Next\nINVARIANTS Own Programs %s\nCONSTANTS\n SOURCES={"a","b"%s}\n MODELS=3\n DEPTH=%d\n LAZY=%s\n EMIT=%s\nCHECK_DEADLOCK FALSE\n'
def check(c):
    rng = c.rng; T = c.thorough
    for lazy in ('TRUE', 'FALSE'): c.design_check('Session_MC', CFG % ('', '', 6 if T else 5, lazy, 'FALSE'), must=1000)
    beh = c.behaviours('Session_MC', CFG % ('Emit', '', 5, 'TRUE', 'TRUE'))
    c.notes['histories_in_spec'] = len(beh)
    n = 700 if T else 120
    # all of the shortest conflicts come first: convert, convert, use, use
    pick = rng.sample(beh, min(n, len(beh)))
    must = [[dict(op='convert', m=1, s='a'), dict(op='convert', m=2, s='b'), dict(op=u, m=1), dict(op=v, m=2), dict(op=u, m=1), dict(op=v, m=2)] for u in ('predict', 'proba') for v in ('predict', 'proba')]
    must += [[dict(op='convert', m=1, s='a'), dict(op='predict', m=1), dict(op='convert', m=2, s='b'), dict(op='predict', m=1), dict(op='predict', m=2), dict(op='save', m=1), dict(op='predict', m=1)]]
    must += [[dict(op='convert', m=1, s='a'), dict(op='refit', s='a'), dict(op='predict', m=1), dict(op='save', m=1), dict(op='convert', m=2, s='a'), dict(op='proba', m=2), dict(op='chdir', d=2), dict(op='predict', m=1), dict(op='proba', m=2)]]
    R, S = dict(op='refit', s='a'), dict(op='save', m=1)
    refits = [[dict(op='convert', m=1, s='a'), R, S, R, S, dict(op='predict', m=1), R, S, dict(op='convert', m=2, s='a'), R, R, S, dict(op='save', m=2), dict(op='proba', m=1), dict(op='predict', m=2)]]
    jobs = []
    kinds = sorted(sw.KINDS)
    for k, kind in enumerate(kinds):
        for h in (must if T else rng.sample(must[:4], 1) + must[4:]): jobs.append(dict(kinds=[kind, kind], hist=h))
        for how in ('buffer', 'continue', 'inplace'): jobs.append(dict(kinds=[kind, kind], hist=refits[0], how=how))
        for h in must[:1] + must[3:4]: jobs.append(dict(kinds=[kind, kind], hist=h, similar=True))
    for k, h in enumerate(pick):
        a = kinds[k % len(kinds)]; b = a if rng.random() < .65 else rng.choice(kinds); jobs.append(dict(kinds=[a, b], hist=h))
    # longer histories over three sources
    for k in range(60 if T else 12):
        ks = [rng.choice(kinds)] * 2 + [rng.choice(kinds)]; h = []; live = 0
        for _ in range(rng.randrange(8, 18)):
            x = rng.random()
            if live == 0 or (x < .3 and live < 6): live += 1; h.append(dict(op='convert', m=live, s=rng.choice('abc')))
            elif x < .4: h.append(dict(op='refit', s=rng.choice('abc')))
            elif x < .5: h.append(dict(op='chdir', d=rng.choice([1, 2])))
            else: h.append(dict(op=rng.choice(['predict', 'predict', 'proba', 'save']), m=rng.randrange(1, live + 1)))
        jobs.append(dict(kinds=ks, hist=h + [dict(op='predict', m=m) for m in range(live, 0, -1)]))
    # several threads at once, each with its own models, in one working directory
    for k in range(20 if T else 6):
        kind = rng.choice(kinds)
        jobs.append(dict(kinds=[kind] * 4, threads=True, hist=[dict(op='convert', m=1, s='x'), dict(op='predict', m=1), dict(op='proba', m=1), dict(op='convert', m=2, s='x'), dict(op='predict', m=1), dict(op='predict', m=2)]))
    for i, j in enumerate(jobs): j.update(id='%s-%d-%s' % ('threads' if j.get('threads') else 'session', i, '+'.join(j['kinds'])), seed=c.seed * 1000 + i)
    rng.shuffle(jobs)
    def worker(k):
        d = c.path('w%d' % k, 'x'); d = os.path.dirname(d)
        fn = os.path.join(d, 'jobs.json'); json.dump(jobs[k::vf.NCPU], open(fn, 'w'))
        r = subprocess.run([vf.PY, os.path.join(vf.VERIF, 'lib', 'session_worker.py'), fn, os.path.join(d, 'out.ndjson')], cwd=d, capture_output=True, text=True, timeout=800)
        if r.returncode: raise vf.Broken('worker: ' + r.stderr[-2000:])
        return [json.loads(l) for l in open(os.path.join(d, 'out.ndjson'))]
    with ThreadPoolExecutor(vf.NCPU) as ex: sess = [s for o in ex.map(worker, range(vf.NCPU)) for s in o]
    c.notes['conversions'] = sum(1 for s in sess for e in s['ev'] if e['op'] == 'convert')
    c.judge('SessionTrace', sess)
if __name__ == '__main__': vf.main('C12', check, assumptions=['what a model answers on its own is what it answers right after conversion in a fresh process directory'])
