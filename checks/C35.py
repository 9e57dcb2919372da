import os, sys, subprocess, shutil, tempfile, re, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
from concurrent.futures import ThreadPoolExecutor
CFG = 'INIT Init\nNEXT Next\nINVARIANTS %s\nCONSTANTS\n PROGS={%s}\n DIRS={{"default"}, {}, {"own"}, {"emlearn", "own"}}\n BROKEN={"make", "avr-gcc", "arm-none-eabi-gcc", "avr-size", "arm-none-eabi-size"}\n EMIT=%s\nCHECK_DEADLOCK FALSE\n'
PROGS = ['plain', 'library', 'own', 'both', 'math', 'data', 'syntax', 'undefined']
TOOLS = ['make', 'avr-gcc', 'avr-size', 'arm-none-eabi-gcc', 'arm-none-eabi-size']
# keeps what the tool was asked to measure, or breaks the tool
WRAP = '''#!/bin/sh
[ -e "%(dir)s/broken" ] && exit 3
for a in "$@"; do case "$a" in *.elf) [ "%(keep)s" = 1 ] && [ -e "$a" ] && cp "$a" "$VF_KEEP/measured.elf";; esac; done
exec %(real)s "$@"
'''
def text(prog, n, rng):
    mark = 'vfmark%06dz' % n
    t = dict(library='#include <eml_trees.h>\n', own='#include <own_header.h>\n', both='#include "own_header.h"\n#include <eml_net.h>\n', math='#include <math.h>\n').get(prog, '')
    t += '__attribute__((used)) const char vf_mark[] = "%s";\n' % mark
    t += 'volatile int vf_in; volatile float vf_out;\n' + rng.choice(['', '/* caf\u00e9 % \\ $(X) */\n', '#define V(a) #a\nconst char *vf_str = V($(CC) ${BIN} $@ %s "q" \'x\');\n'])
    body = dict(own='vf_out = OWN_VALUE;', both='vf_out = OWN_VALUE;', math='vf_out = expf((float)vf_in) + logf((float)vf_in) + sqrtf(vf_out);', data='vf_out = vf_table[vf_in] + vf_zero[vf_in];',
                syntax='vf_out = ;', undefined='vf_out = vf_nowhere(vf_in);', library='vf_out = eml_error_str((EmlError)vf_in)[0];').get(prog, 'vf_out = vf_in * 3.3f;')
    if prog == 'data': t += 'int vf_table[%d] = {1, 2, 3};\nstatic int vf_zero[%d];\n' % (rng.randrange(3, 60), rng.randrange(1, 40))
    if prog == 'undefined': t += 'int vf_nowhere(int);\n'
    # a loop that is unrolled or vectorised unless size is what counts
    t += 'static int vf_work(int a) { int r = 0; for (int i = 0; i < 9; i++) { r += a / (i + 1); a ^= r << (i & 3); } return r; }\n'
    return t + 'int main(void) {\n  %s\n  vf_in = vf_work(vf_in) + vf_work(vf_in + 1);\n  return vf_mark[vf_in & 3];\n}\n' % body, mark.encode()
def sections(elf):
    out = []
    for line in subprocess.run(['readelf', '-S', '-W', elf], capture_output=True, text=True).stdout.split('\n'):
        m = re.match(r'^\s*\[\s*\d+\]\s+(\.\S+)\s+\S+\s+[0-9a-f]+\s+[0-9a-f]+\s+([0-9a-f]+)', line)
        if m: out.append(dict(name=m.group(1).lower(), size=int(m.group(2), 16)))
    return [s for s in out if s['name'] in ('.text', '.data', '.bss', '.rodata')]
def attributes(elf, platform):
    if platform == 'avr':
        b = open(elf, 'rb').read(); i = b.find(b'AVR\0'); names = re.findall(rb'at[a-z]+[0-9][0-9a-z]*', b[i:i + 120]) if i >= 0 else []
        return dict(device=names[0].decode() if names else '?', arch='', fpu='')
    t = subprocess.run(['readelf', '-A', elf], capture_output=True, text=True).stdout
    g = lambda k: (re.findall(k + r': (\S+)', t) or ['none'])[0]
    return dict(device='', arch=g('Tag_CPU_arch'), fpu=g('Tag_FP_arch') if 'VFP registers' in t else 'none')
ARCH = {'Cortex-M0': ['-mthumb', '-mcpu=cortex-m0'], 'Cortex-M0+': ['-mthumb', '-mcpu=cortex-m0plus'], 'Cortex-M3': ['-mthumb', '-mcpu=cortex-m3'], 'Cortex-M4F': ['-mthumb', '-mcpu=cortex-m4', '-mfpu=fpv4-sp-d16', '-mfloat-abi=hard']}
def reference(c, n, code, r, inc):
    """the same text compiled for size, by hand"""
    src = c.path('ref', 'r%d.c' % n); open(src, 'w').write(code); elf = src[:-2] + '.elf'
    fl = ['avr-gcc', '-mmcu=' + r['mcu']] if r['platform'] == 'avr' else ['arm-none-eabi-gcc', '--specs=nosys.specs'] + ARCH.get(r['mcu'], [])
    p = subprocess.run(fl + ['-Os', '-w'] + ['-I' + d for d in inc] + [src, '-o', elf, '-lm'], capture_output=True, text=True)
    if p.returncode: raise vf.Broken('reference build failed: ' + p.stderr[-300:])
    s = sections(elf); os.remove(elf); return s
def check(c):
    rng = c.rng
    from emlearn.evaluate import size
    from emlearn.common import get_include_dir
    for t in TOOLS:
        if not shutil.which(t): raise vf.Broken('no ' + t)
    progs = ', '.join('"%s"' % p for p in PROGS)
    c.design_check('Toolchain_MC', CFG % ('Decided NothingLeft Honest', progs, 'FALSE'), must=500)
    reqs = c.behaviours('Toolchain_MC', CFG % ('Emit', progs, 'TRUE')); c.notes['requests_in_spec'] = len(reqs)
    if not c.thorough:
        good = [r for r in reqs if r['prog'] in ('library', 'own', 'math', 'data', 'plain', 'both')]; reqs = rng.sample(reqs, 50) + rng.sample(good, 60)
    reqs += [dict(platform='avr', mcu=m, dirs=['default'], prog=p) for m in ('attiny85', 'atmega32u4', 'atmega328p') for p in ('plain', 'library', 'data')]
    reqs += [dict(platform=p, mcu=m, dirs=['default'], prog='data') for p, m in (('arm', 'cortex-m0'), ('ARM', 'Cortex-M0'), ('', ''), ('arm', ''), ('avr', 'Cortex-M0'), ('arm', 'atmega328'))]
    old = os.environ['PATH']; real = {t: shutil.which(t) for t in TOOLS}
    own = c.path('own dir'[:3], 'own_header.h'); open(own, 'w').write('#define OWN_VALUE 12.5f\n')
    decoy = c.path('cwd', 'own_header.h'); open(decoy, 'w').write('#error not this one\n')    # the folder of the caller is none of the include folders
    bins = {}
    for broken in [None] + TOOLS:
        d = os.path.dirname(c.path('tool-%s' % broken, 'x')); bins[broken] = d
        for t in TOOLS:
            td = os.path.dirname(c.path('tool-%s' % broken, 'st-' + t, 'x')); p = os.path.join(d, t)
            open(p, 'w').write(WRAP % dict(dir=td, keep=int(t.endswith('-size')), real=real[t])); os.chmod(p, 0o755)
            if t == broken: open(os.path.join(td, 'broken'), 'w').close()
    jobs = [(r, None) for r in reqs] + [(dict(platform=p, mcu=m, dirs=['default'], prog='plain'), b) for p, m in (('avr', 'atmega328'), ('arm', 'Cortex-M3')) for b in TOOLS]
    rng.shuffle(jobs)
    # measured in processes of their own: the environment is part of the request
    def one(k, r, broken, code, mark):
        keep = os.path.dirname(c.path('keep%d' % k, 'x')); tmp = os.path.dirname(c.path('tmp%d' % k, 'x')); cwd = os.path.dirname(c.path('cwd%d' % k, 'x')); shutil.copy(decoy, cwd)
        dirs = r['dirs']; inc = [get_include_dir()] if dirs == ['default'] else [dict(emlearn=get_include_dir(), own=os.path.dirname(own))[d] for d in dirs]
        rng_src = c.path('job', '%d.c' % k); open(rng_src, 'w').write(code)
        script = 'import sys, json\nfrom emlearn.evaluate import size\nimport subprocess\na = json.loads(sys.argv[1])\ntry:\n    r = size.get_program_size(open(a["src"]).read(), platform=a["platform"], mcu=a["mcu"], **({} if a["inc"] is None else dict(include_dirs=a["inc"])))\n    print("\\nVF" + json.dumps(r))\nexcept Exception as x: print("\\nVF" + json.dumps(dict(raised="value" if isinstance(x, ValueError) else "other", why=repr(x)[:300])))\n'
        import json
        p = subprocess.run([vf.PY, '-c', script, json.dumps(dict(src=rng_src, platform=r['platform'], mcu=r['mcu'], inc=None if dirs == ['default'] else inc))], cwd=cwd, capture_output=True, text=True,
                           env=dict(os.environ, PATH=bins[broken] + ':' + old, VF_KEEP=keep, TMPDIR=tmp, LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1'))
        o = [l for l in p.stdout.split('\n') if l.startswith('VF')]
        e = dict(op='size', platform=r['platform'], mcu=r['mcu'], dirs=r['dirs'], prog=r['prog'], works=[t for t in TOOLS if t != broken], left=sorted(os.listdir(tmp) + [f for f in os.listdir(cwd) if f != 'own_header.h']),
                 raised=False, kind='', flash=-1, ram=-1, secs=[], ref=[], arch='', fpu='', device='', marker=False)
        got = json.loads(o[-1][2:]) if o else dict(raised='other', why=p.stderr[-300:])
        if 'raised' in got: e.update(raised=True, kind=got['raised'], why=got['why'])
        else:
            elf = os.path.join(keep, 'measured.elf'); e.update(flash=got['flash'], ram=got['ram'])
            if os.path.exists(elf):
                e.update(secs=sections(elf), marker=mark in open(elf, 'rb').read(), **attributes(elf, r['platform']))
                try: e['ref'] = reference(c, k, code, r, inc)
                except vf.Broken: e['ref'] = []
        for d in (keep, tmp, cwd): shutil.rmtree(d)
        return e
    todo = [(k, r, b, *text(r['prog'], k, rng)) for k, (r, b) in enumerate(jobs)]
    with ThreadPoolExecutor(vf.NCPU) as ex: ev = list(ex.map(lambda t: one(*t), todo))
    sess = [dict(id='sizes-%d' % i, ev=ev[i:i + 10]) for i in range(0, len(ev), 10)]
    # which tools are missing
    ev = []
    try:
        for n, sub in enumerate(itertools.chain.from_iterable(itertools.combinations(TOOLS, k) for k in range(len(TOOLS) + 1))):
            a, b = (os.path.dirname(c.path('p%d%s' % (n, x), 'x')) for x in 'ab')
            for t in TOOLS:
                if t in sub: p = os.path.join(rng.choice([a, b]), t); open(p, 'w').write('#!/bin/sh\n'); os.chmod(p, 0o755)
                elif rng.random() < .3: open(os.path.join(a, t), 'w').close()         # not a program
                elif rng.random() < .3: os.makedirs(os.path.join(b, t))
            os.environ['PATH'] = a + ':' + b
            for plat in ['avr', 'arm'] + rng.sample(['host', '', 'AVR', 'esp32'], 1):
                e = dict(op='missing', platform=plat, have=list(sub), got=[], raised=False)
                try: r = size.check_build_tools(plat); e['got'] = [t for t in TOOLS if r and t in re.split(r'[\s,:;\'"{}\[\]()]+', str(r))] + ([] if not r or any(t in str(r) for t in TOOLS) else ['?'])
                except ValueError as x: e['raised'] = True
                ev.append(e)
            ask = rng.sample(TOOLS, rng.randrange(0, 5)); ask += ask[:1]
            try: r = size.check_programs(ask); ev.append(dict(op='programs', asked=ask, have=list(sub), raised=False, got=[t for t in TOOLS if r and t in re.split(r'[\s,:;\'"{}\[\]()]+', str(r))]))
            except Exception as x: ev.append(dict(op='programs', asked=ask, have=list(sub), raised=True, got=[], why=repr(x)[:100]))
    finally: os.environ['PATH'] = old
    sess.append(dict(id='tools', ev=ev))
    c.judge('ToolchainTrace', sess)
vf.main('C35', check, assumptions=['the installed avr and arm tool chains are the reference compilers', 'Cortex-M0 and M0+ have the same instruction set: programs built for either are not told apart', 'include folders have no spaces in their names'])
