"""Common machinery of the checks: scratch folders, compiling harnesses from the
current tree of the repository, running TLC, judging traces, evidence, verdicts.

The verdict about a trace is always TLC's: this module only moves data."""
import traceback, os, sys, json, subprocess, tempfile, shutil, time, random, re, atexit, signal, threading, hashlib
from fractions import Fraction
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('EML_REPO', '/repo')
INC = os.path.join(REPO, 'emlearn')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
PY = '/opt/venv/bin/python'
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NOINT = -2147483647      # projection of "not an integer at this scale / out of range"
NAN = -2147483646
NCPU = 8

class Broken(Exception):
    """the machinery itself failed"""

class Hang(Exception):
    pass

class limit:
    """raise Hang in the main thread after n seconds"""
    def __init__(self, n): self.n = n
    def __enter__(self):
        def h(*a): raise Hang()
        self.old = signal.signal(signal.SIGALRM, h); signal.alarm(self.n)
    def __exit__(self, *a):
        signal.alarm(0); signal.signal(signal.SIGALRM, self.old)

def scaled(x, scale=1):
    """exact projection of a float to an integer at a scale, or NOINT/NAN"""
    if isinstance(x, str):
        try: x = float.fromhex(x)
        except ValueError: return NOINT
    try:
        f = Fraction(float(x)) * scale
    except (OverflowError, ValueError):
        return NAN if x != x else NOINT
    if f.denominator != 1 or abs(f.numerator) >= 2**31 - 8: return NOINT
    return int(f.numerator)

def micro(x, scale=1000000):
    """nearest scaled integer (for tolerance comparisons in the specification)"""
    if isinstance(x, str): x = float.fromhex(x)
    x = float(x)
    if x != x: return NAN
    try: v = round(x * scale)
    except OverflowError: return NOINT
    return v if abs(v) < 2**31 - 8 else NOINT

def big(n):
    """an integer of any size, as spec/Big.tla represents it"""
    n = int(n); a = abs(n); m = []
    while a: m.append(a % 10000); a //= 10000
    return dict(neg=n < 0, m=m)

def bigx(x, bits=0):
    """a number in units of 2^-bits, truncated toward zero"""
    f = Fraction(x) * 2 ** bits
    n = abs(f.numerator) // f.denominator
    return big(-n if f < 0 else n)

class Check:
    def __init__(self, pid, level='model_checking', assumptions=()):
        self.pid = pid; self.level = level; self.assumptions = list(assumptions)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.replay = None
        argv = sys.argv[1:]
        while argv:
            a = argv.pop(0)
            if a in ('quick', 'thorough'): self.tier = a
            elif a == '--replay': self.replay = argv.pop(0)
        try: self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError: self.seed = 1
        self.thorough = self.tier == 'thorough'
        self.rng = random.Random(self.seed * 1000003 + int(pid[1:]))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='eml-%s-' % pid)
        os.makedirs(os.path.join(self.scratch, 'cwd'))
        os.chdir(os.path.join(self.scratch, 'cwd'))
        atexit.register(shutil.rmtree, self.scratch, True)
        signal.signal(signal.SIGTERM, lambda *a: sys.exit(143))
        self.states = 0; self.transitions = 0; self.traces = 0; self.events = 0
        self.samples = []; self.notes = {}; self.viol = []; self.design = []
        self._n = 0
        self.known = self._load_known()

    # ---------------------------------------------------------------- files
    def path(self, *p):
        d = os.path.join(self.scratch, *p[:-1]); os.makedirs(d, exist_ok=True)
        return os.path.join(d, p[-1])

    def _load_known(self):
        known = {}
        fn = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(fn):
            for line in open(fn):
                m = re.match(r'known: property=(\S+) key=(\S+)\s+(.*)', line)
                if m and m.group(1) == self.pid: known[m.group(2)] = m.group(3).strip()
        return known

    # ------------------------------------------------------------- building
    def cc(self, src, out=None, flags=(), lang=None, san=True, libs=('-lm',), inc=(), compiler='gcc'):
        """compile a C/C++ source against the headers of the current tree"""
        self._n += 1
        out = out or self.path('bin', 'h%d' % self._n)
        cxx = src.endswith('.cpp')
        cmd = ['g++' if cxx else compiler, '-g', '-O1', '-w']
        if not cxx: cmd += ['-std=gnu99']
        if san: cmd += ['-fsanitize=address,bounds,shift-base,integer-divide-by-zero' if san is True else '-fsanitize=' + san,
                        '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
        cmd += list(flags) + ['-I' + INC] + ['-I' + i for i in inc] + [src, '-o', out] + list(libs)
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
        if r.returncode != 0:
            raise Broken('compiling %s failed:\n%s' % (src, r.stderr[-3000:]))
        return out

    def env(self, **kw):
        e = dict(os.environ)
        e.update(ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0')
        e.update(kw); return e

    def run_sessions(self, binary, sessions, timeout=20, args=(), env=None):
        """Each session: dict(cmds=[line,...], ...). The harness reads the lines of one session on
        stdin and prints one JSON object per event. A crash or hang becomes an event
        {"op":"crash"} / {"op":"hang"} at the point where it happened, and judged by the spec."""
        def one(s):
            inp = '\n'.join(s['cmds']) + '\n'
            try:
                r = subprocess.run([binary, *args], input=inp, capture_output=True, text=True,
                                   timeout=timeout, env=self.env(**(env or {})), errors='replace')
                out, rc, err = r.stdout, r.returncode, r.stderr
            except subprocess.TimeoutExpired as e:
                out = e.stdout.decode('utf8', 'replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
                rc, err = 'hang', ''
            ev = []
            for line in out.split('\n'):
                line = line.strip()
                if not line.startswith('{'): continue   # the library's own chatter
                try: ev.append(json.loads(line))
                except ValueError:
                    if rc == 0: raise Broken('harness printed %r' % line)
            if rc == 'hang': ev.append({'op': 'hang'})
            elif rc != 0:
                m = re.search(r'(ERROR: AddressSanitizer: \S+|runtime error: .*)', err)
                ev.append({'op': 'crash', 'why': (m.group(1) if m else 'exit %s' % rc)})
            return ev
        # batch by process pool of threads
        with ThreadPoolExecutor(NCPU) as ex:
            return list(ex.map(one, sessions))

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, workers=NCPU, timeout=850, env=None, extra=(), heap='4g', java=()):
        """run TLC on spec/<module>.tla with the given cfg text in a scratch copy of the specs"""
        self._n += 1
        d = os.path.join(self.scratch, 'tlc%d' % self._n)
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith('.tla'): os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        with open(os.path.join(d, 'run.cfg'), 'w') as f: f.write(cfg)
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4', '-Xss64m', '-Xmx' + heap, *java, '-cp', JAR, 'tlc2.TLC',
               '-config', 'run.cfg', '-workers', str(workers), '-metadir', os.path.join(d, 'meta'),
               '-noGenerateSpecTE', *extra, module + '.tla']
        e = dict(os.environ); e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            raise Broken('TLC timed out on ' + module)
        out = r.stdout
        if os.environ.get('VF_DEBUG'): sys.stderr.write(out[-6000:] + r.stderr[-2000:])
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        res = dict(out=out, rc=r.returncode, generated=gen, distinct=dist, err=r.stderr)
        if 'Finished in' not in out and 'Finished computing' not in out and r.returncode not in (0, 12, 13, 10, 11):
            raise Broken('TLC failed on %s (rc %s):\n%s\n%s' % (module, r.returncode, out[-3000:], r.stderr[-1500:]))
        return res

    def design_check(self, module, cfg, timeout=800, must=None, extra=(), heap='4g'):
        """exhaustive check of a design model: any error here is an error of the machinery
        (the specification does not have its own property), never a verdict about the code"""
        r = self.tlc(module, cfg, timeout=timeout, extra=extra, heap=heap)
        if r['rc'] != 0:
            raise Broken('design check %s failed (rc %d):\n%s' % (module, r['rc'], r['out'][-4000:]))
        if must and r['distinct'] < must:
            raise Broken('design check %s is vacuous: %d states' % (module, r['distinct']))
        self.states += r['distinct']; self.transitions += r['generated']
        self.design.append(dict(module=module, distinct=r['distinct'], generated=r['generated']))
        return r

    def behaviours(self, module, cfg, extra=(), timeout=600, limit=None):
        """behaviours printed by a generator model as lines  "BEH <json>" """
        r = self.tlc(module, cfg, workers=1, extra=extra, timeout=timeout)
        if r['rc'] != 0: raise Broken('generator %s failed:\n%s' % (module, r['out'][-3000:]))
        self.states += r['distinct']; self.transitions += r['generated']
        out = []
        for line in r['out'].split('\n'):
            if line.startswith('"BEH '):
                out.append(json.loads(json.loads('"' + line.strip()[5:])))
        self.design.append(dict(module=module, distinct=r['distinct'], generated=r['generated'], behaviours=len(out)))
        return out

    def judge(self, module, sessions, cfg_extra='', timeout=800, chunk=400, heap='3g', what='trace'):
        """sessions: list of dict(id=.., key=.., ev=[events], <setup fields>). TLC judges every event."""
        if not sessions: raise Broken('no sessions recorded for ' + module)
        for s in sessions:
            s.setdefault('key', 'none')
            if not s['ev']: s['ev'] = [{'op': 'empty'}]
        ntot = sum(len(s['ev']) for s in sessions)
        nch = max(1, min(6, (ntot + 1499) // 1500, len(sessions)))
        chunks = [sessions[i::nch] for i in range(nch)]
        def run(ch):
            self._n += 1
            fn = self.path('tr', 't%d.ndjson' % id(ch))
            with open(fn, 'w') as f:
                for s in ch:
                    f.write(json.dumps({k: v for k, v in s.items() if k not in ('cmds', 'key', 'src')}) + '\n')
            cfg = 'INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n' + cfg_extra
            r = self.tlc(module, cfg, workers=4 if nch == 1 else 2, timeout=timeout, env={'TRACE': fn}, heap=heap)
            if r['rc'] != 0:
                raise Broken('judging with %s failed (rc %d):\n%s' % (module, r['rc'], r['out'][-4000:]))
            want = sum(len(s['ev']) + 1 for s in ch)
            if r['distinct'] != want:
                raise Broken('%s judged %d of %d states' % (module, r['distinct'], want))
            bad = []
            for line in r['out'].split('\n'):
                if 'MISMATCH' in line:
                    m = re.match(r'"MISMATCH (\d+) (\d+) (.*)"\s*$', line)
                    if not m: raise Broken('unreadable verdict ' + line)
                    bad.append((ch[int(m.group(1)) - 1], int(m.group(2)), m.group(3)))
            return r, bad
        with ThreadPoolExecutor(max(1, min(nch, 4))) as ex:
            res = list(ex.map(run, chunks))
        for r, bad in res:
            self.states += r['distinct']; self.transitions += r['generated']
            for s, l, clause in bad: self.violation(s, l, clause, module)
        self.traces += len(sessions); self.events += ntot
        if len(self.samples) < 4:
            s = self.rng.choice(sessions)
            self.samples.append(json.loads(json.dumps({'module': module, **{k: v for k, v in s.items()}}, default=str)[:1500] + '"}')
                                if False else (module + ': ' + json.dumps(s, default=str)[:1200]))
        return [b for _, bad in res for b in bad]

    # -------------------------------------------------------------- verdict
    def violation(self, session, line, clause, module):
        self.viol.append((session, line, clause, module))

    def finish(self):
        rc = 0
        seen_known = {}
        new = []
        for s, l, c, m in self.viol:
            k = s.get('key', 'none')
            if k in self.known: seen_known.setdefault(k, []).append((s, l, c, m))
            else: new.append((s, l, c, m))
        for k in sorted(seen_known):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, self.known[k]))
        if new:
            rc = 1
            d = os.path.join(VERIF, 'replays'); os.makedirs(d, exist_ok=True)
            bykey = {}
            for s, l, c, m in new: bykey.setdefault((m, c), []).append((s, l))
            fn = os.path.join(d, '%s-%d.json' % (self.pid, self.seed))
            s, l, c, m = new[0]
            with open(fn, 'w') as f:
                json.dump(dict(property=self.pid, module=m, clause=c, event_no=l, event=s['ev'][l-1] if l else None, session=s,
                               all=[dict(module=a, clause=b, count=len(v), first=str(v[0][0].get('id')), line=v[0][1]) for (a, b), v in bykey.items()]),
                          f, indent=1, default=str)
            for (a, b), v in list(bykey.items())[:12]:
                ss, ll = v[0]
                print('  %s: clause %s, %d event(s); first: session %s event %d: %s' % (a, b, len(v), ss.get('id'), ll, json.dumps(ss['ev'][ll-1] if ll else None, default=str)[:400]))
            print('VIOLATION property=%s replay=%s' % (self.pid, fn))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces, events_judged=self.events,
                                design_models=self.design, samples=self.samples, **self.notes),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
        print('%s %s: %d states, %d traces, %d events, %d new violations, %.1fs' % (self.pid, self.tier, self.states, self.traces, self.events, len(new), time.time() - self.t0))
        sys.stdout.flush()
        return rc

def main(pid, fn, **kw):
    c = Check(pid, **kw)
    try:
        fn(c)
        rc = c.finish()
    except Broken as e:
        # a violation already found outranks a later failure of the machinery
        print('ERROR of the check %s: %s' % (pid, e))
        rc = c.finish() if any(s.get('key') not in c.known for s, *_ in c.viol) else 2
        if rc == 0: rc = 2
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if not any(f.filename.startswith(os.path.join(REPO, 'emlearn') + os.sep) for f in tb): traceback.print_exc(); sys.exit(2)
        # valid use of the library ended in an exception out of the library
        traceback.print_exc()
        c.violation(dict(id='exception', ev=[dict(op='raised', why=repr(e)[:300], where=[str(f) for f in tb[-4:]])]), 1, 'raised', 'valid use')
        rc = c.finish()
    sys.exit(rc)
