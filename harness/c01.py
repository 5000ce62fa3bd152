import streams
from streams import make_plan as plan, judge, normalise, reduce
ID = 'C01'
QUICK = 24000
THOROUGH = 400000
TWICE = 50
RULE = 'a case in which input met a short, late, interrupted or failing delivery, an end of file, or pushed-back characters'
REAL = ['the GNU Prolog engine and built-in library (stream, character, term input/output, DEC-10 I/O), built from the tree', 'glibc stdio buffering']
STUB = ['kernel (files, pipes, descriptors, clock) replaced by sim/libsim.c', 'the process feeding standard input is a scripted actor']
PROBES = ['eof', 'unget', 'eof_reset', 'read_error_raised', 'exception', 'read_term', 'term_stream']
def gen(rng, i): return streams.gen(rng, 'in')
