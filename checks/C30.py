import os, sys, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
CFG = 'INIT Init\nNEXT Next\nINVARIANTS Totals %s\nCONSTANTS\n NAMES={".text", ".data", ".bss", ".rodata", ".comment"}\n SIZES={0, 7, 1000}\n DEPTH=%d\n EMIT=%s\nCHECK_DEADLOCK FALSE\n'
OTHER = ['.comment', '.ARM.attributes', '.ARM.exidx', '.init_array', '.note.gnu.build-id', '.note.gnu.avr.deviceinfo', '.stab', '.stabstr', '.debug_info', '.debug_frame', '.eeprom',
         '.text.startup', '.rodata.str1.4', '.data.rel.ro', '.bss_dma', '.noinit', '.heap', '.stack', '.rel.text', '.dtors', '.gnu.version_r', 'my-section', '.flash_text', 'text', 'data', 'bss', '.text2', '.data1', '.text$mn', '.gnu.linkonce.t._ZN3fooC1Ev@x', '.note/x', '.init+0', '.%ctors', '.c++abi', '.sec~1', '.a,b', '.note.ABI-tag', '.vectors[0]', '.\u00e9t\u00e9', '=x=', '.4byte', '.text.unlikely._Z1fv', '(anon)']
def render(rng, secs, path):
    w = rng.choice([1, 4, 12, 20]); sep = rng.choice(['  ', ' ', '   ', '\t'])
    lines = [path + rng.choice(['  :', ':', '  :  ']), 'section' + ' ' * rng.choice([1, 8, 12]) + 'size' + ' ' * rng.choice([1, 6]) + 'addr']
    addr = 0; tot = 0
    for n, z in secs:
        ad = rng.choice([addr, 0, 8388864, 536870912]); lines.append(n.ljust(w) + sep + str(z).rjust(rng.choice([1, 5, 9])) + sep + str(ad).rjust(rng.choice([1, 8])) + rng.choice(['', '', ' '])); addr += z; tot += z
        if rng.random() < 0.02: lines.append('')
    if rng.random() < 0.9: lines.append('Total'.ljust(w) + sep + str(tot))
    return '\n'.join(lines) + rng.choice(['\n\n', '\n', '\n\n\n', ''])
def check(c):
    rng = c.rng
    from emlearn.evaluate import size
    c.design_check('SizeReport_MC', CFG % ('', 5 if c.thorough else 4, 'FALSE'), must=500)
    beh = c.behaviours('SizeReport_MC', CFG % ('Emit', 4 if c.thorough else 3, 'TRUE'))
    c.notes['listings_from_spec'] = len(beh)
    lists = [[(s['name'], s['size']) for s in b] for b in beh]
    if len(lists) > 2500: lists = rng.sample(lists, 2500)
    for _ in range(2000 if c.thorough else 400):
        names = ['.text'] + [n for n in ('.data', '.bss', '.rodata') if rng.random() < 0.7] + rng.sample(OTHER, rng.randrange(0, 12))
        rng.shuffle(names); lists.append([(n, rng.choice([0, 1, 36, rng.randrange(200), rng.randrange(200000), 16777216])) for n in names])
    fake = c.path('bin', 'fake-size'); listing = c.path('bin', 'listing.txt')
    # stands in for the size tool of a cross toolchain; prints the listing that belongs to the program
    open(fake, 'w').write('#!/bin/sh\n[ "$1" = "-A" ] || { echo "   text    data     bss"; exit 0; }\ncat "$2.listing"\n'); os.chmod(fake, 0o755)
    sess = []
    for i, L in enumerate(lists):
        if i % 25 == 0: sess.append(dict(id='listings-%d' % i, ev=[]))
        path = rng.choice(['out.elf', '/tmp/tmpab12/out.elf', 'a b/out.elf', './x.elf', '/home/u/.text 5/prog.elf', '/w/12 34.elf'])
        text = render(rng, L, path); secs = [dict(name=n.lower(), size=z) for n, z in L]
        try:
            got = size.parse_binutils_size_a_output(text)
            sess[-1]['ev'].append(dict(op='parse', secs=secs, got=[dict(name=k, size=int(v)) for k, v in got.items()]))
        except Exception as x: sess[-1]['ev'].append(dict(op='raised', why=repr(x)[:200], text=text)); continue
        if i % 8 == 0:
            elf = c.path('elf', 'prog%d.elf' % i); open(elf, 'w').write('x'); open(elf + '.listing', 'w').write(text)
            try:
                r = size.run_binutils_size(elf, binary=fake); sess[-1]['ev'].append(dict(op='report', secs=secs, flash=r['flash'], ram=r['ram']))
            except Exception as x: sess[-1]['ev'].append(dict(op='raised', why=repr(x)[:200], text=text))
    # real programs of the host, measured with the real tool
    n = 0
    for code in ['int main(void){return 0;}', '#include <stdio.h>\nint a[1000]; int b[50]={1}; static const char t[]="0123456789abcdef"; int main(int c,char**v){puts(t+c);return a[c]+b[c];}', 'const double k[300]={1}; int main(int c,char**v){return (int)k[c];}']:
        src = c.path('elf', 'real%d.c' % n); open(src, 'w').write(code); elf = c.path('elf', 'real%d.elf' % n); n += 1
        subprocess.run(['gcc', '-w', src, '-o', elf], check=True)
        t = subprocess.run(['objdump', '-h', '-w', elf], capture_output=True, text=True).stdout
        secs = []
        for line in t.split('\n'):
            f = line.split()
            if len(f) > 3 and f[0].isdigit(): secs.append(dict(name=f[1].lower(), size=int(f[2], 16)))
        r = size.run_binutils_size(elf, binary='size')
        sess[-1]['ev'].append(dict(op='report', secs=secs, flash=r['flash'], ram=r['ram']))
    c.judge('SizeTrace', sess)
vf.main('C30', check, assumptions=['section names differ when lower-cased and contain no spaces', 'the listing has a .text section and names an .elf file, as the parser demands', 'the size tool is mostly a stand-in that prints listings (the cross tool chains are used by C35), plus the host tool on host programs'])
