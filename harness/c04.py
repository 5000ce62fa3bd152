import streams
from streams import make_plan as plan, judge, normalise, reduce
ID = 'C04'
QUICK = 24000
THOROUGH = 400000
TWICE = 50
RULE = 'a history with repositionings or position queries compared with the model'
REAL = ['the GNU Prolog engine and built-in library (stream, character, term input/output, DEC-10 I/O), built from the tree', 'glibc stdio buffering']
STUB = ['kernel (files, pipes, descriptors, clock) replaced by sim/libsim.c', 'the process feeding standard input is a scripted actor']
PROBES = ['reposition', 'seek', 'seek_refused', 'reposition_with_pushback', 'reposition_at_eof', 'set_line_column']
def gen(rng, i): return streams.gen(rng, 'pos')
