"""One workload in several builds of the library: every operation must give the same result in each (C31, C36)."""
import os, sys, json, hashlib, subprocess, re
import vf, cmodels, workload
from concurrent.futures import ThreadPoolExecutor
NAMES = ['ok', 'sizemismatch', 'unsupported', 'uninitialized', 'postconditionfailed', 'unknownerror']
STR = r'''
#include <eml_common.h>
#include <stdio.h>
int main(void) {
    int codes[] = {0,1,2,3,4,5,6,7,-1,100};
    for (int i=0;i<10;i++) printf("%d|%d|%s\n", codes[i], (int)eml_error_valid((EmlError)codes[i]), eml_error_str((EmlError)codes[i]));
    printf("E|%d|%d|%d|%d|%d|%d|%d\n", EmlOk, EmlSizeMismatch, EmlUnsupported, EmlUninitialized, EmlPostconditionFailed, EmlUnknownError, EmlErrors);
    return 0;
}
'''
SAN = 'address,bounds,integer-divide-by-zero'
class Proxy:
    """compiles and runs as one build does; builds: (name, flags, env[, compiler])"""
    def __init__(self, c, env, tag, compiler='gcc', sanitize=True): self.c = c; self.e = env; self.tag = tag; self.compiler = compiler; self.san = SAN if sanitize else False
    def path(self, *p): return self.c.path('b-' + self.tag, *p)
    def env(self, **k): return self.c.env(**{**self.e, **k})
    def cc(self, src, out=None, **k): return self.c.cc(src, out=out, **{**k, 'compiler': self.compiler, 'san': self.san})
def proxy(c, b): return Proxy(c, b[2], b[0], *b[3:])
def show(v):
    t = json.dumps(v, sort_keys=True)
    return t if len(t) < 160 else t[:120] + hashlib.sha1(t.encode()).hexdigest()[:12]
def run(c, BUILDS, pids, per_session, per_model, per_job, more=None):
    c.design_check('Builds_MC', 'INIT Init\nNEXT Next\nINVARIANTS Unchanged PlainIsSilent Named\nCONSTANTS\n LEN=2\n VALS={0,1}\n DEPTH=%d\nCHECK_DEADLOCK FALSE\n' % (4 if c.thorough else 3), must=1000)
    T = c.thorough
    H, M = workload.collect(c, pids, sessions=per_session, models=per_model, jobs=per_job)
    names = [b[0] for b in BUILDS]; sess = []
    # error descriptions, and that the headers compile, in each build
    src = c.path('src', 'strings.c'); open(src, 'w').write(STR)
    for bld in BUILDS:
        name, flags, env = bld[:3]
        try:
            b = proxy(c, bld).cc(src, flags=flags); p = subprocess.run([b], capture_output=True, text=True, env=c.env()); out = p.stdout
            if p.returncode: sess.append(dict(id='strings-' + name, builds=names, ev=[dict(op='crash', why=p.stderr[-300:])])); continue
        except vf.Broken as ex: sess.append(dict(id='strings-' + name, builds=names, ev=[dict(op='nocompile', why=str(ex)[-300:])])); continue
        rows = [l.split('|', 2) for l in out.strip().split('\n')]
        has = [[n for n in NAMES if n in re.sub('[^a-z]', '', r[2].lower())] for r in rows if r[0] != 'E']
        vals = [int(v) for r in rows if r[0] == 'E' for v in '|'.join(r[1:]).split('|')]
        sess.append(dict(id='strings-' + name, builds=names, ev=[dict(op='strings', codes=[int(r[0]) for r in rows if r[0] != 'E'], valid=[r[1] == '1' for r in rows if r[0] != 'E'], has=has, raw=[r[2] for r in rows if r[0] != 'E']), dict(op='enum', names=NAMES, values=vals[:6])]))
    # hand-written harnesses: every session in every build
    def harness(h):
        def one(b3):
            name, flags, env = b3[:3]
            try: b = proxy(c, b3).cc(h['src'], out=c.path('bin31', '%s-%s-%s' % (h['pid'], os.path.basename(h['src'])[:-2], name)), flags=h['flags'] + flags)
            except vf.Broken as ex: return [[dict(nocompile=str(ex)[-300:])]] * len(h['sessions'])
            return c.run_sessions(b, h['sessions'], env=env)
        with ThreadPoolExecutor(vf.NCPU) as ex: res = list(ex.map(one, BUILDS))
        out = []
        for i, s in enumerate(h['sessions']):
            n = max(len(r[i]) for r in res)
            # neighbouring results in one event
            ev = []
            for lo in range(0, n, 8): ev.append(dict(op='results', i=lo, vals=[show(r[i][lo:lo + 8]) for r in res]))
            out.append(dict(id='%s-%s' % (h['pid'], s['id']), builds=names, ev=ev or [dict(op='results', i=0, vals=['none'] * len(names))]))
        return out
    for h in H: sess += harness(h)
    # generated models
    for m in M:
        def onem(b3):
            return cmodels.build(proxy(c, b3), m['models'], per=10, flags=b3[1])(m['jobs'])
        with ThreadPoolExecutor(4) as ex: res = list(ex.map(onem, BUILDS))
        by = {}
        for i, (id, x) in enumerate(m['jobs']): by.setdefault(id, []).append(dict(op='results', i=i, vals=[show(r[i]) for r in res]))
        sess += [dict(id='%s-%s' % (m['pid'], id), builds=names, ev=ev) for id, ev in by.items()]
    if more: sess += more(H, M)
    c.notes['builds'] = names; c.notes['operations'] = sum(len(s['ev']) for s in sess)
    c.judge('BuildsTrace', sess)
