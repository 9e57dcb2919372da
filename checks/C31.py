import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, builds_check
TRACE = ['-DEML_LOG_ENABLE=1', '-DEML_TREES_TRACE=1', '-DEML_NEIGHBORS_LOG_LEVEL=3']
BUILDS = [('plain', [], {}), ('debug', ['-DEML_DEBUG'], {}), ('debug-log', ['-DEML_DEBUG', '-DEML_LOG_ENABLE=1'], dict(EML_DEBUG_LOG='1')), ('trace', TRACE, {}),
          ('all-c99', ['-DEML_DEBUG', '-std=c99'] + TRACE, {}), ('all-c11', ['-DEML_DEBUG', '-std=c11', '-O2'] + TRACE, {}), ('all-c2x', ['-DEML_DEBUG', '-std=c2x', '-O0'] + TRACE, {})]
PIDS = ['C01', 'C02', 'C03', 'C06', 'C07', 'C09', 'C10', 'C11', 'C15', 'C16', 'C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25', 'C27']
def check(c): builds_check.run(c, BUILDS, PIDS, *((200, 25, 10) if c.thorough else (30, 6, 5)))
vf.main('C31', check, assumptions=['EML_DEBUG_FATAL_ERRORS is not set (it asks for the program to end)', 'x86-64 gcc; both sides of each comparison use the same floating point instructions'])
