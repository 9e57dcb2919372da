import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, nets, numpy, hashlib, json, re, subprocess, pathlib, shutil, warnings
from concurrent.futures import ThreadPoolExecutor
import session_worker as sw
CFG = 'INIT Init\nNEXT Next\nINVARIANTS RefusedWritesNothing FileIsText OthersStay %s\nCONSTANTS\n NAMES={%s}\n PATHS={%s}\n DEPTH=%d\n EMIT=%s\nCHECK_DEADLOCK FALSE\n'
KEYWORDS = '''auto break case char const continue default do double else enum extern float for goto if int long register return short signed sizeof static struct switch typedef union unsigned void volatile while
inline restrict _Bool _Complex _Imaginary _Alignas _Alignof _Atomic _Generic _Noreturn _Static_assert _Thread_local alignas alignof bool constexpr false nullptr static_assert thread_local true typeof typeof_unqual _BitInt _Decimal128 _Decimal32 _Decimal64'''.split()
CXX = '''alignas alignof and and_eq asm auto bitand bitor bool break case catch char char8_t char16_t char32_t class compl concept const consteval constexpr constinit const_cast continue co_await co_return co_yield decltype default delete do double
dynamic_cast else enum explicit export extern false float for friend goto if inline int long mutable namespace new noexcept not not_eq nullptr operator or or_eq private protected public register reinterpret_cast requires return short signed sizeof
static static_assert static_cast struct switch template this thread_local throw true try typedef typeid typename union unsigned using virtual void volatile wchar_t while xor xor_eq final override import module'''.split()
CALLS = {'tree': 'i:predict', 'tree-float': 'f:predict', 'forest-loadable': 'i:predict', 'forest-soft': 'i:predict', 'trees-regress': 'f:predict', 'trees-regress-loadable': 'i:predict', 'bayes': 'f:predict', 'knn': 'knn', 'mlp': 'f:predict', 'mlp-inline': 'f:predict', 'mlp-regress': 'f:regress1', 'envelope': 'f:predict', 'mixture': 'mixture'}
def body(kind, name):
    how = CALLS[kind]
    if how == 'knn': return 'static EmlNeighborsDistanceItem vf_d[200]; int16_t vf_x[4]; int16_t vf_r = -7; for (int vf_i=0;vf_i<4;vf_i++) vf_x[vf_i] = (int16_t)vf_in[vf_i]; int vf_e = eml_neighbors_predict(&%s, vf_x, 4, vf_d, 200, &vf_r); printf(" %%d/%%d", vf_e, (int)vf_r);' % name
    if how == 'mixture': return 'float vf_x[4], vf_p[9], vf_s = 0; for (int vf_i=0;vf_i<4;vf_i++) vf_x[vf_i] = (float)vf_in[vf_i]; int vf_e = %s_score(vf_x, 4, vf_p, &vf_s); printf(" %%d/%%a/%%a", vf_e, vf_s, vf_p[0]);' % name
    t, fn = how.split(':')
    return '%s vf_x[4]; for (int vf_i=0;vf_i<4;vf_i++) vf_x[vf_i] = (%s)vf_in[vf_i]; printf(" %%a", (double)%s_%s(vf_x, 4));' % (('int16_t',) * 2 + (name, fn) if t == 'i' else ('float',) * 2 + (name, fn))
HEADERS = ['eml_trees.h', 'eml_net.h', 'eml_bayes.h', 'eml_neighbors.h', 'eml_distance.h', 'eml_mixture.h']
def codes(s): return [ord(x) for x in s]
def sha(b): return hashlib.sha1(b).hexdigest()[:16]
def listing():
    out = {}
    for d, _, fs in os.walk('.'):
        for f in fs: out[os.path.relpath(os.path.join(d, f), '.')] = sha(open(os.path.join(d, f), 'rb').read())
    return out
def check(c):
    rng = c.rng; T = c.thorough
    c.design_check('Ident_MC', CFG % ('', '"n1","n2","b1","r1"', '"p1","p2","q1"', 3, 'FALSE'), must=1000)
    beh = c.behaviours('Ident_MC', CFG % ('Emit', '"n1","n2","b1"', '"p1","p2","q1"', 2, 'TRUE'))
    c.notes['histories_in_spec'] = len(beh)
    conv = {}
    with nets.no_compile():
        for k in sw.KINDS: conv[k] = [sw.convert(sw.Source(k, c.seed * 100 + i)) for i in range(2)]
    sess = []
    def save(m, ev, name=None, file=None, how='kw', op='save', **kw):
        base = os.path.splitext(os.path.basename(str(file)))[0] if file is not None else ''
        e = dict(op=op, given=name is not None, name=codes(name) if isinstance(name, str) else [], word=name if isinstance(name, str) and name.isascii() else base if name is None and base.isascii() else '?',
                 path=codes(str(file)) if file is not None else [], key=os.path.normpath(str(file)) if file is not None else 'none', raised=False, text='none', show=repr((name, str(file)))[:200])
        t = None
        try:
            t = m.save(name, file, **kw) if how == 'pos' else m.save(**{k: v for k, v in dict(name=name, file=file).items() if v is not None}, **kw)
        except Exception as ex: e['raised'] = True; e['why'] = repr(ex)[:200]
        if isinstance(t, str): e['text'] = sha(t.encode('utf8'))
        e['files'] = listing()
        if t is not None and not e['given'] and op == 'save':
            # the name that was used: the one of the text saved under it
            with_name = m.save(name=base, **kw); e['effective'] = codes(base) if with_name == t else codes('something_else')
        elif not e['given']: e['effective'] = codes(base)
        ev.append(e); return t
    home = os.getcwd(); nd = [0]
    class here:
        def __enter__(self): nd[0] += 1; self.d = os.path.join(home, 's%d' % nd[0]); os.makedirs(os.path.join(self.d, 'sub')); os.chdir(self.d); return self.d
        def __exit__(self, *a): os.chdir(home); shutil.rmtree(self.d)
    good = ['model', 'M', '_x', 'a_b_c', 'x9', '__', '_', 'Z' * 300, 'modelPredict', 'iff', 'Int', 'IF', 'whiles', 'not_a_word', 'constant', 'e1', 'l', 'O0', '_if', 'if_', 'nullptr_t_', 'predict', 'static1', '_Bool_', '_boo', 'UINT', 'c' * 4096]
    bad = ['', ' ', 'a b', ' a', 'a ', 'a-b', 'a.b', '1a', '9', 'a+b', 'a=1', 'a\n', '\na', 'a\n\n', 'a\tb', 'a\0', 'a;', 'a()', '*a', '&a', 'a[0]', 'a/b', '../a', 'a\\b', 'a"', "a'", 'a#', 'a$b', 'a@', 'é', 'aé', 'ａ', 'а', 'a\u0301', 'aµ', 'a²', 'x१', '1', '٣a', 'a٣', 'Ⅷ', 'a\u200b', '\ufeffa', 'a\r', 'a\x0b', 'a\x85', 'a\u2028', '{}', '%s', 'a{b}', 'a?', 'int x', '-', '--', 'a,b', 'a:b', '"', '/*a*/', 'a//', 'a\\\nb', '🙂']
    # names of every sort, of every kind
    for kind in sw.KINDS:
        m = conv[kind][0]
        with here():
            ev = []
            for n in (good + bad + KEYWORDS if T else rng.sample(good, 9) + bad[:1] + ['a\n', 'a٣', '1a', 'a-b', 'é'] + rng.sample(bad, 12) + rng.sample(KEYWORDS, 14)):
                x = rng.random(); f = 'out.h' if x < .6 else None if x < .8 else os.path.join('sub', 'o.h')
                save(m, ev, name=n, file=f, how=rng.choice(['kw', 'pos']))
            sess.append(dict(id='names-' + kind, files={}, ev=ev))
        with here():
            ev = []
            files = ['model.h', './model2.h', 'sub/deep.h', 'sub/../other.h', 'noext', 'two.dots.h', 'my-model.h', '1st.h', '.hidden', 'int.h', 'else.h', 'a b.h', 'x.tar.gz', os.path.abspath('absolute.h'), 'sub/if.c', 'Model.H', 'caf\u00e9.h', '_.h', 'name.', 'v1.2.h', 'while', 'sub/_Bool.x', 'missing_dir_not/model.h'][:-1]
            for f in (files if T else rng.sample(files, 12)): 
                p = pathlib.Path(f) if rng.random() < .3 else f
                if os.path.isabs(f): save(m, ev, file=f); ev[-1]['key'] = os.path.relpath(f, '.')
                else: save(m, ev, file=p)
            save(m, ev)
            sess.append(dict(id='files-' + kind, files={}, ev=ev))
    # every reserved word and every character, on some kind
    for g in range(0, len(KEYWORDS), 14):
        kind = rng.choice(sw.KINDS)
        with here():
            ev = [];
            for w in KEYWORDS[g:g + 14]: save(conv[kind][0], ev, name=w, file='w.h'); save(conv[kind][0], ev, file=w + '.h')
            sess.append(dict(id='words-%s-%d' % (kind, g), files={}, ev=ev))
    with here():
        ev = []; kind = rng.choice(['tree', 'envelope', 'bayes'])
        for ch in list(range(1, 256)) + [0x2b0, 0x370, 0x660, 0x966, 0x2160, 0x3041, 0x4e00, 0xff21, 0x10400]:
            if chr(ch) != '/': save(conv[kind][0], ev, name='x' + chr(ch), file=None); 
            if ch < 128 or ch % 7 == 0: save(conv[kind][0], ev, name=chr(ch) + 'x', file='c.h')
        sess.append(dict(id='characters-' + kind, files={}, ev=ev))
    # histories of the specification: abstract names and paths get concrete ones
    for h in rng.sample(beh, min(len(beh), 400 if T else 60)):
        ks = [rng.choice(sw.KINDS), rng.choice(sw.KINDS)]
        N = dict(zip(['n1', 'n2'], rng.sample(good[:-1], 2)), b1=rng.choice(bad[1:] + KEYWORDS), none=None); P = dict(p1='first.h', p2='sub/second.h', q1=rng.choice(['no-name.h', 'for.h', 'sub/2.h']), none=None)
        with here():
            ev = []; files = {}
            if rng.random() < .5:
                for f in ('first.h', P['q1'], 'other.txt'): open(f, 'w').write('here before'); 
                files = listing()
            for o in h: save(conv[ks[o['m'] == 'b']][0], ev, name=N[o['name']], file=P[o['path']])
            sess.append(dict(id='history-' + '+'.join(ks), files=files, ev=ev))
    with here():
        ev = []
        for kind in [k for k in sw.KINDS if 'tree' in k or 'forest' in k]:
            for n, f in [('any', 'm.csv'), (None, 'sub/m2.csv'), ('any', None), (None, None)]: save(conv[kind][0], ev, name=n, file=f, op='csv', format='csv')
        sess.append(dict(id='csv', files={}, ev=ev))
    # ---- the code of models with various names
    X = numpy.random.RandomState(7).randint(-150, 150, size=(8, 4))
    probe_src = ''.join('#include <%s>\n' % h for h in HEADERS) + '#include <stdio.h>\n#include <math.h>\n'
    def text(kind, i, name):
        with nets.no_compile(): return conv[kind][i].save(name=name)
    def identifiers(kind):
        t = re.sub(r'//[^\n]*|/\*.*?\*/|"[^"\n]*"|^\s*#.*$', ' ', text(kind, 0, 'vf_neutral'), flags=re.S | re.M)
        return sorted({w for w in re.findall(r'\b[A-Za-z_]\w*', t) if 'vf_neutral' not in w and w not in KEYWORDS and not re.fullmatch(r'e\d+|f|u?int\d*_t|x\w+', w)})
    def usable(words):
        """names that neither the library nor the C headers have taken"""
        def ok(w):
            if re.match(r'(eml|EML|Eml)', w) or w in ('main', 'printf'): return False
            src = probe_src + '#ifdef %s\n#error taken\n#endif\nint %s; int %s_predict; int %s_model;\n' % (w, w, w, w)
            return subprocess.run(['gcc', '-std=gnu99', '-w', '-Werror=builtin-declaration-mismatch', '-fsyntax-only', '-I' + vf.INC, '-xc', '-'], input=src, text=True, capture_output=True).returncode == 0
        with ThreadPoolExecutor(vf.NCPU) as ex: r = list(ex.map(ok, words))
        return [w for w, k in zip(words, r) if k]
    inner = {k: identifiers(k) for k in sw.KINDS}
    common = usable(sorted({w for v in inner.values() for w in v} | {'model', 'features', 'n_features', 'out', 'out_length', 'values', 'values_length', 'in', 'in_length', 'features_length', 'data', 'labels', 'nodes', 'leaves', 'x', 'i', 'classifier', 'predict', 'weights'}))
    c.notes['identifiers_of_generated_code'] = len(common)
    jobs = []
    def add(ms, lang): jobs.append((ms, lang))
    for kind in sw.KINDS:
        mine = [w for w in common if w in inner[kind]]
        for n in (common if T else sorted(set(rng.sample(mine, min(len(mine), 10)) + rng.sample(common, 3)) | ({'features', 'out'} if 'forest' in kind or 'mlp' in kind else {'values'}))) + ['_u', 'Z' * 300]:
            add([(kind, 0, n)], 'c')
        for n in ['model', rng.choice(common)]: 
            if n not in CXX: add([(kind, 0, n)], 'c++')
        # next to others, of the same and of another kind
        for _ in range(6 if T else 2):
            a, b = rng.sample([w for w in common + ['modelA', 'modelB', 'first', 'second', 'a1', 'a2', 'b']if w not in CXX], 2)
            if a.startswith(b) or b.startswith(a): continue
            add([(kind, 0, a), (kind, 1, b)], rng.choice(['c', 'c', 'c++']))
        k2 = rng.choice(sw.KINDS); k3 = rng.choice(sw.KINDS)
        add([(kind, 0, 'one'), (k2, 1, 'two'), (k3, 0, 'three')], 'c'); add([(kind, 0, 'one'), (k2, 1, 'two')], 'c++')
    add([(k, 0, 'm_%s_m' % k.replace('-', '_')) for k in sw.KINDS], 'c')
    def program(ms, lang, i):
        src = '#include <stdio.h>\n' + '\n'.join(text(k, w, n) for k, w, n in ms) + '\n'
        fn = c.path('prog', 'p%d.%s' % (i, 'c' if lang == 'c' else 'cpp')); open(fn, 'w').write(src)
        main = 'static const int vf_rows[][4] = {%s};\n' % ','.join('{%s}' % ','.join(map(str, r)) for r in X)
        for j, (k, w, n) in enumerate(ms): main += 'static void vf_call%d(const int *vf_in) { %s }\n' % (j, body(k, n))
        main += 'int main(void) { ' + ''.join('for (int vf_r=0;vf_r<8;vf_r++) vf_call%d(vf_rows[vf_r]); printf("\\n"); ' % j for j in range(len(ms))) + 'return 0; }\n'
        # headers first, alone, to know their symbols
        cmd = (['gcc', '-std=c99'] if lang == 'c' else ['g++', '-std=c++11']) + ['-w', '-I' + vf.INC]
        r = subprocess.run(cmd + ['-c', fn, '-o', fn + '.o'], capture_output=True, text=True)
        ev = [dict(op='build', lang=lang, ok=r.returncode == 0, names=[codes(n) for _, _, n in ms], symbols=[], show=str([m[:1] + m[2:] for m in ms])[:300], why=r.stderr[-400:])]
        if r.returncode: return ev
        hs = c.path('prog', 'h%d.%s' % (i, 'c' if lang == 'c' else 'cpp')); open(hs, 'w').write('\n'.join(dict.fromkeys(re.findall(r'^\s*#include.*$', src, flags=re.M))))
        subprocess.run(cmd + ['-c', hs, '-o', hs + '.o'], check=True)
        def syms(o): return {(l.split()[-1]) for l in subprocess.run(['nm', '--defined-only', '-g'] + ['-C', o], capture_output=True, text=True).stdout.split('\n') if l.strip()} if lang == 'c' else {re.sub(r'\(.*', '', ' '.join(l.split()[2:])) for l in subprocess.run(['nm', '--defined-only', '-g', '-C', o], capture_output=True, text=True).stdout.split('\n') if l.strip()}
        ev[0]['symbols'] = [codes(s) for s in sorted(syms(fn + '.o') - syms(hs + '.o'))]
        ev[0]['symbol_names'] = sorted(syms(fn + '.o') - syms(hs + '.o'))[:20]
        open(fn, 'a').write(main)
        r = subprocess.run(cmd + [fn, '-o', fn + '.bin', '-lm'], capture_output=True, text=True)
        if r.returncode: return ev + [dict(op='caller-does-not-compile', why=r.stderr[-400:])]
        p = subprocess.run([fn + '.bin'], capture_output=True, text=True, timeout=60)
        ev.append(dict(op='answer', rc=p.returncode, res=p.stdout.split('\n')[:-1] if p.returncode == 0 else ['crash'], alone=[]))
        return ev
    alone = {}
    need = sorted({(k, w) for ms, _ in jobs for k, w, _ in ms})
    def one(a): return program(a[1][0], a[1][1], a[0])
    with ThreadPoolExecutor(vf.NCPU) as ex:
        for kw, ev in zip(need, ex.map(one, [(100000 + i, ([(k, w, 'vf_alone')], 'c')) for i, (k, w) in enumerate(need)])):
            sess.append(dict(id='alone-%s-%d' % kw, files={}, ev=ev))
            alone[kw] = (ev[-1].get('res') or ['?'])[0]
            if ev[-1]['op'] == 'answer': ev[-1]['alone'] = ev[-1]['res']
        for (ms, lang), ev in zip(jobs, ex.map(one, enumerate(jobs))):
            for e in ev:
                if e['op'] == 'answer': e['alone'] = [alone[(k, w)] for k, w, _ in ms]
            sess.append(dict(id='code-%s-%s' % (lang, '+'.join('%s:%s' % (k, n[:30]) for k, _, n in ms)), files={}, ev=ev))
    c.notes['programs'] = len(jobs); c.notes['saves'] = sum(1 for s in sess for e in s['ev'] if e['op'] in ('save', 'csv'))
    c.judge('IdentTrace', sess)
vf.main('C13', check, assumptions=['names that the C headers or the library have taken are not used'])
