import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, csv_check as cc
def check(c):
    c.design_check('Csv_MC', cc.MC % ('VIEW View\n', '', 3, 2, 10 if c.thorough else 9, 'FALSE'), must=300)
    beh = c.behaviours('Csv_MC', cc.MC % ('', 'Emit', 2, 2, 7 if c.thorough else 6, 'TRUE'))
    if len(beh) < 100: raise vf.Broken('too few histories %d' % len(beh))
    c.notes['histories_in_spec'] = len(beh)
    lim = 4000 if c.thorough else 500
    if len(beh) > lim: beh = c.rng.sample(beh, lim)
    c.notes['histories_from_spec'] = len(beh)
    b = c.cc(os.path.join(vf.HARNESS, 'csv.c'))
    s = [dict(id='spec-%d' % i, cmds=cc.from_history(h, c.rng)) for i, h in enumerate(beh)] + cc.faulty(c, 2500 if c.thorough else 400)
    for x, ev in zip(s, c.run_sessions(b, s)): x['ev'] = ev
    c.judge('CsvTrace', s)
vf.main('C23', check, assumptions=['a failing stream returns a negative count, or a smaller count for writes', 'whether an unterminated last line or an empty line is delivered, refused or taken as the end is left open (never as a wrong number of columns)', 'a row of which only a part was written before a reported failure may remain in the stream'])
