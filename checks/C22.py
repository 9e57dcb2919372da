import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, csv_check as cc
def check(c):
    c.design_check('Csv_MC', cc.MC % ('VIEW View\n', '', 3, 0, 10 if c.thorough else 9, 'FALSE'), must=50)
    b = c.cc(os.path.join(vf.HARNESS, 'csv.c'))
    s = cc.roundtrip(c, 1500 if c.thorough else 260)
    for x, ev in zip(s, c.run_sessions(b, s)): x['ev'] = ev
    c.judge('CsvTrace', s)
vf.main('C22', check, assumptions=['column names contain neither separators nor line ends', 'values whose text has at least 20 characters are refused by the writer (C23) and not part of the round trip', 'streams deliver all available bytes that were asked for'])
