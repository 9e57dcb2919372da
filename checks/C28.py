import os, sys, shutil, hashlib, subprocess, pathlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
CFG = 'INIT Init\nNEXT Next\n%sINVARIANTS Outside %s\n%sCONSTANTS\n DEPTH=%d\n EMIT=%s\nCHECK_DEADLOCK FALSE\n'
def tree(d, ids, skip=None):
    """complete contents of a directory; contents are numbered by identity"""
    out = []
    for root, dirs, files in os.walk(d):
        if skip and os.path.abspath(root).startswith(skip): continue
        for f in files:
            p = os.path.join(root, f)
            if skip and os.path.abspath(p).startswith(skip): continue
            b = ('link:' + os.readlink(p)).encode() if os.path.islink(p) else open(p, 'rb').read()
            out.append(dict(f=os.path.relpath(p, d), c=ids.setdefault(b, len(ids) + 1)))
        for f in dirs:
            p = os.path.join(root, f); 
            if skip and os.path.abspath(p).startswith(skip): continue
            out.append(dict(f=os.path.relpath(p, d) + '/', c=0))
    return sorted(out, key=lambda x: x['f'])
def check(c):
    rng = c.rng
    from emlearn.arduino import install
    from emlearn.common import get_include_dir
    c.design_check('Install_MC', CFG % ('', '', 'PROPERTIES Complete NoClobber KeepsUnrelated\n', 5 if c.thorough else 4, 'FALSE'), must=200)
    beh = c.behaviours('Install_MC', CFG % ('', 'Emit', '', 5 if c.thorough else 4, 'TRUE'))
    c.notes['histories_in_spec'] = len(beh)
    lim = 2500 if c.thorough else 350
    if len(beh) > lim: beh = rng.sample(beh, lim)
    beh = [[dict(op='install', update=False)], [dict(op='install', update=True)]] + beh
    sess = []
    inc = get_include_dir()
    def world(k, real):
        w = os.path.join(c.scratch, rng.choice(['w%d', 'w %d', 'w[%d]', 'w%d*']) % k); os.makedirs(os.path.join(w, 'sketchbook', 'libraries'))
        src = os.path.join(w, rng.choice(['src', 'venv[3]', 's p', 'inc.d'])); os.makedirs(src)
        if real:
            for f in os.listdir(inc):
                if f.endswith('.h') or f == 'VERSION.txt': shutil.copy(os.path.join(inc, f), src)
        else:
            for f in ('eml_a.h', 'eml_b.h', 'VERSION.txt'): open(os.path.join(src, f), 'wb').write(b'%s 1\r\n\x00\xff' % f.encode())
            open(os.path.join(src, 'trees.py'), 'w').write('not a header'); os.makedirs(os.path.join(src, 'tools'))
        open(os.path.join(w, 'sketchbook', 'sketch.ino'), 'w').write('void setup(){}')
        os.makedirs(os.path.join(w, 'sketchbook', 'libraries', 'other')); open(os.path.join(w, 'sketchbook', 'libraries', 'other', 'eml_a.h'), 'w').write('another')
        return w, src
    for k, h in enumerate(beh):
        real = k % 7 == 0 or k < 2
        w, src = world(k, real); libs = os.path.join(w, 'sketchbook', 'libraries')
        if k % 11 == 5: shutil.rmtree(libs)     # a fresh sketchbook
        lib = os.path.join(libs, 'emlearn'); ids = {}; n = 1; ev = []
        def shipped():
            return [x for x in tree(src, ids) if '/' not in x['f'] and (x['f'].startswith('eml_') and x['f'].endswith('.h') or x['f'] == 'VERSION.txt')]
        # the (empty) folder for libraries may be created
        def outside(): return [x for x in tree(w, ids, skip=os.path.abspath(lib)) if x['f'] != 'sketchbook/libraries/']
        def state(): return dict(present=os.path.exists(lib), lib=tree(lib, ids) if os.path.isdir(lib) else [], outside=outside())
        ev.append(dict(op='world', shipped=shipped(), **state()))
        for o in h:
            n += 1
            names = {'eml_a.h': 'eml_trees.h', 'eml_b.h': 'eml_net.h'} if real else {}
            f = names.get(o.get('f'), o.get('f'))
            if o['op'] == 'install':
                conv = pathlib.Path if rng.random() < 0.2 else str
                try:
                    if not o['update'] and rng.random() < 0.5: ret = install.install_arduino_library(conv(src), conv(libs))
                    else: ret = install.install_arduino_library(conv(src), conv(libs), update=o['update'])
                    raised = False
                except Exception as x: raised = True; ret = repr(x)
                ev.append(dict(op='install', update=o['update'], raised=raised, ret=str(ret)[:100], **state())); continue
            if o['op'] == 'release': open(os.path.join(src, f), 'wb').write(b'%s rev %d\n' % (f.encode(), n))
            elif o['op'] == 'edit': open(os.path.join(lib, f), 'wb').write(b'%s mine %d\n' % (f.encode(), n)) if os.path.isdir(lib) else None
            elif o['op'] == 'delete' and os.path.exists(os.path.join(lib, f)): os.remove(os.path.join(lib, f))
            elif o['op'] == 'empty': shutil.rmtree(lib, ignore_errors=True); os.makedirs(lib)
            elif o['op'] == 'remove' and os.path.isdir(lib): shutil.rmtree(lib)
            ev.append(dict(op='world', shipped=shipped(), **state()))
        sess.append(dict(id='history-%d%s' % (k, '-real' if real else ''), ev=ev)); shutil.rmtree(w)
    # the command line tool with the headers of the repository
    w = os.path.join(c.scratch, 'cli'); home = os.path.join(w, 'home'); os.makedirs(os.path.join(home, 'Arduino', 'libraries')); ids = {}; ev = []
    lib = os.path.join(home, 'Arduino', 'libraries', 'emlearn')
    def st(): return dict(present=os.path.exists(lib), lib=tree(lib, ids) if os.path.isdir(lib) else [], outside=tree(w, ids, skip=os.path.abspath(lib)))
    def sh(): return [x for x in tree(inc, ids) if '/' not in x['f'] and (x['f'].startswith('eml_') and x['f'].endswith('.h') or x['f'] == 'VERSION.txt')]
    ev.append(dict(op='world', shipped=sh(), **st()))
    for update in (False, False, True):
        r = subprocess.run([vf.PY, '-m', 'emlearn.arduino.install'] + (['--update'] if update else []) + ([] if rng.random() < 0.6 else ['--arduino-library-dir', os.path.dirname(lib)]), env=dict(os.environ, HOME=home, PYTHONDONTWRITEBYTECODE='1'), capture_output=True, text=True)
        ev.append(dict(op='install', update=update, raised=r.returncode != 0, ret=r.stderr[-100:], **st()))
        open(os.path.join(lib, 'eml_net.h'), 'a').write('// changed'); ev.append(dict(op='world', shipped=sh(), **st()))
    sess.append(dict(id='cli', ev=ev))
    c.judge('InstallTrace', sess)
vf.main('C28', check, assumptions=['no other process changes the folders meanwhile', 'the sketchbook folder itself exists'])
