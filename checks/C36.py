import os, sys, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, builds_check
from concurrent.futures import ThreadPoolExecutor
UB = ['-fno-strict-aliasing']
BUILDS = [('gcc', [], {}), ('gcc-c99-O3', ['-std=c99', '-O3'], {}), ('gcc-O0-pattern', ['-O0', '-ftrivial-auto-var-init=pattern'], {}, 'gcc', False), ('gcc-O2-zero', ['-O2', '-ftrivial-auto-var-init=zero'], {}, 'gcc', False),
          ('gcc-uchar', ['-funsigned-char', '-fshort-enums'], {}), ('clang-O0', ['-O0', '-ffp-contract=off'], {}, 'clang', False), ('clang-O2', ['-O2', '-ffp-contract=off', '-ftrivial-auto-var-init=pattern'], {}, 'clang', False)]
PIDS = ['C01', 'C02', 'C03', 'C06', 'C07', 'C09', 'C10', 'C11', 'C15', 'C16', 'C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25', 'C27']
# name: compiler and options, C++?, has a host's files
STRICT = ['-Werror=implicit-function-declaration', '-Werror=implicit-int', '-Werror=int-conversion', '-Werror=incompatible-pointer-types', '-Werror=vla']
# C99 without extensions of the compilers (no word on style: stray semicolons, old prototypes)
C99 = ['-Wno-everything', '-Werror=gnu', '-Werror=c11-extensions', '-Werror=c2x-extensions', '-Werror=language-extension-token', '-Wno-error=extra-semi'] + STRICT
TARGETS = dict(c99=(['gcc', '-std=c99'] + STRICT, 0), c11=(['gcc', '-std=c11'] + STRICT, 0), clang99=(['clang', '-std=c99'] + C99, 0),
               avr=(['avr-gcc', '-mmcu=atmega2560', '-std=c99'], 0), arm=(['arm-none-eabi-gcc', '-std=c99', '-mthumb', '-mcpu=cortex-m0'], 0), arm4=(['arm-none-eabi-gcc', '-std=c99', '-mthumb', '-mcpu=cortex-m4', '-mfloat-abi=hard', '-mfpu=fpv4-sp-d16'], 0),
               cxx11=(['g++', '-std=c++11'], 1), cxx17=(['clang++', '-std=c++17'], 1), avrcxx=(['avr-g++', '-mmcu=atmega2560', '-std=gnu++11'], 1), armcxx=(['arm-none-eabi-g++', '-mthumb', '-mcpu=cortex-m0', '-std=gnu++11'], 1))
# what the library computes from its constants, worked out by the target's own compiler
FACTS = [('EML_Q16_ONE', 65536), ('EML_Q16_FROMINT(3)', 196608), ('EML_Q16_FROMINT(-3)', -196608), ('EML_Q16_FROMINT(32767)', 2147418112), ('EML_Q16_FROMFLOAT(1.5f)', 98304), ('EML_Q16_FROMFLOAT(-1.5f)', -98304), ('EML_Q16_FROMFLOAT(20000.0f)', 1310720000),
         ('EML_Q16_TOINT(EML_Q16_FROMINT(-3))', -3), ('EML_Q16_TOINT(EML_Q16_FROMINT(20000))', 20000), ('EML_Q16_TOFLOAT(98304L)*16', 24), ('sizeof(eml_q16_t)', 4), ('eml_q16_mul(98304L, 98304L)', 147456), ('eml_q16_div(196608L, 98304L)', 131072), ('eml_q16_mul(EML_Q16_FROMINT(150), EML_Q16_FROMINT(200))', 1966080000)]
# the checks' own wrappers print; the library's code has to include what it uses
PRINTF = '#ifdef __cplusplus\nextern "C"\n#endif\nint printf(const char *, ...);\n'
def more(c):
    def fn(H, M):
        inc = vf.INC; heads = sorted(h for h in os.listdir(inc) if h.endswith('.h')); T = c.thorough
        units = [('header', h, '#include <%s>\n' % h) for h in heads] + [('header2', h, '#include <%s>\n#include <%s>\n' % (h, h)) for h in heads]
        units.append(('header', 'all', ''.join('#include <%s>\n' % h for h in heads if h != 'eml_test.h'))); units.append(('header', 'all-reversed', ''.join('#include <%s>\n' % h for h in reversed(heads) if h != 'eml_test.h')))
        for m in M:
            pick = [x for x in m['models'] if len(x['code']) < 20000]
            units += [('model', m['pid'] + '-' + str(x['id']), PRINTF + x['code']) for x in c.rng.sample(pick, min(len(pick), 12 if T else 4))]
        jobs = [(u, t) for u in units for t in TARGETS]
        def one(a):
            k, ((kind, name, text), t) = a; cmd, cxx = TARGETS[t]; f = c.path('port', '%d.%s' % (k, 'cpp' if cxx else 'c')); open(f, 'w').write(text + '\nint vf_unit = 1;\n')
            p = subprocess.run(cmd + ([] if STRICT[0] in cmd else ['-w']) + ['-O1', '-I' + inc, '-c', f, '-o', f + '.o'], capture_output=True, text=True, timeout=300)
            r = dict(op='compiles', kind=kind.rstrip('2'), unit=name, target=t, ok=p.returncode == 0)
            if p.returncode: r['why'] = ' '.join([l for l in p.stderr.split('\n') if 'error' in l][:2])[-300:]
            for x in (f, f + '.o'):
                if os.path.exists(x): os.remove(x)
            return r
        def fact(a):
            k, (t, (expr, val)) = a; cmd, cxx = TARGETS[t]; res = []
            for op in ('!=', '=='):
                f = c.path('port', 'f%d.%s' % (k, 'cpp' if cxx else 'c'))
                # worked out in constant folding: a comparison known to be false leaves no call; neither known: not decided
                open(f, 'w').write('#include <eml_fixedpoint.h>\nvoid wrong_value(void);\nvoid f(void) { if ((long)(%s) %s (%dL)) wrong_value(); }\n' % (expr, op, val))
                p = subprocess.run(cmd + ['-w', '-O2', '-I' + inc, '-S', f, '-o', f + '.s'], capture_output=True, text=True, timeout=300)
                res.append(p.returncode == 0 and 'wrong_value' not in open(f + '.s').read())
            return dict(op='fact', target=t, expr=expr, verdict='holds' if res[0] else 'fails' if res[1] or p.returncode else 'undecided', **({'why': p.stderr[-200:]} if p.returncode else {}))
        with ThreadPoolExecutor(vf.NCPU) as ex:
            ev = list(ex.map(one, enumerate(jobs))); fa = list(ex.map(fact, enumerate([(t, f) for t in TARGETS for f in FACTS])))
        c.notes['compiled'] = len(ev); c.notes['facts'] = len(fa); c.notes['facts undecided'] = sum(e['verdict'] == 'undecided' for e in fa); c.notes['targets'] = sorted(TARGETS)
        by = {}
        for (u, t), e in zip(jobs, ev): by.setdefault(u[0] + '-' + u[1], []).append(e)
        for e in fa: by.setdefault('facts-' + e['target'], []).append(e)
        return [dict(id='port-' + n, builds=[], ev=e) for n, e in by.items()]
    return fn
def check(c): builds_check.run(c, BUILDS, PIDS, *((120, 20, 8) if c.thorough else (20, 4, 5)), more=more(c))
vf.main('C36', check, assumptions=['targets are compiled for, not run: no simulator of AVR or ARM is at hand; results are compared on x86-64 between compilers, optimisation levels, char signedness, enum sizes and contents of uninitialised storage', 'no contraction of floating point operations'])
