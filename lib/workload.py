"""The inputs of other checks (histories from the specifications, random sessions, generated models),
without judging them: for the properties that compare or watch whole runs."""
import os, importlib.util, json, traceback
import vf, cmodels, extrun
class Stop(Exception): pass
class Recorder(vf.Check):
    def __init__(self, c, pid):
        self.pid = pid; self.tier = 'quick'; self.seed = c.seed; self.thorough = False; self.replay = None
        import random
        self.rng = random.Random(c.seed * 1000003 + int(pid[1:]) * 77)
        self.scratch = c.path('rec', pid, 'x'); self.scratch = os.path.dirname(self.scratch)
        self.states = self.transitions = self.traces = self.events = 0; self.samples = []; self.notes = {}; self.viol = []; self.design = []; self._n = 0; self.known = {}
        self.harness = []; self.models = None; self.outer = c
    def design_check(self, *a, **k): pass
    def judge(self, *a, **k): return []
    def behaviours(self, module, cfg, **k):
        b = self.outer.behaviours(module, cfg, **k); return b
    def cc(self, src, out=None, flags=(), **k):
        self.harness.append(dict(src=src, flags=list(flags), sessions=[])); return len(self.harness) - 1
    def run_sessions(self, h, sessions, **k):
        self.harness[h]['sessions'] += [dict(id=s.get('id', '?'), cmds=s['cmds']) for s in sessions]
        return [[] for _ in sessions]
def collect(c, pids, sessions=40, models=10, jobs=6):
    """-> (harness workloads, model workloads)"""
    H, M = [], []
    real_main, real_build, real_call = vf.main, cmodels.build, extrun.call
    for pid in pids:
        got = []
        vf.main = lambda p, fn, **k: got.append(fn)
        rec = Recorder(c, pid)
        def build(c_, ms, **k):
            def run(js, **k2): rec.models = (ms, js); raise Stop()
            return run
        def call(*a, **k): raise Stop()
        cmodels.build = build; extrun.call = call
        try:
            sp = importlib.util.spec_from_file_location('chk_' + pid, os.path.join(vf.VERIF, 'checks', pid + '.py')); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
            got[0](rec)
        except Stop: pass
        except Exception:
            # results are missing here, so a check may stop early; what it has asked for so far is kept
            if os.environ.get('VF_DEBUG'): traceback.print_exc()
        finally: vf.main, cmodels.build, extrun.call = real_main, real_build, real_call
        n = 0
        for h in rec.harness:
            s = h['sessions']
            if not s: continue
            n += len(s); H.append(dict(pid=pid, src=h['src'], flags=h['flags'], sessions=c.rng.sample(s, min(len(s), sessions))))
        if rec.models:
            ms, js = rec.models; pick = c.rng.sample(ms, min(len(ms), models)); ids = {m['id'] for m in pick}; by = {}
            for id, x in js:
                if id in ids: by.setdefault(id, []).append(x)
            js2 = [(id, x) for id, xs in by.items() for x in c.rng.sample(xs, min(len(xs), jobs))]
            n += len(js2); M.append(dict(pid=pid, models=pick, jobs=js2))
        if not n: raise vf.Broken('nothing recorded from ' + pid)
    return H, M
