import streams
from streams import make_plan as plan, judge, normalise, reduce
ID = 'C02'
QUICK = 24000
THOROUGH = 400000
TWICE = 50
RULE = 'a case with output to at least one stream whose bytes were compared with the sink, with split or failing writes or mirrors'
REAL = ['the GNU Prolog engine and built-in library (stream, character, term input/output, DEC-10 I/O), built from the tree', 'glibc stdio buffering']
STUB = ['kernel (files, pipes, descriptors, clock) replaced by sim/libsim.c', 'the process feeding standard input is a scripted actor']
PROBES = ['sink_checked', 'mirrored', 'write_error', 'write_error_raised', 'close_error', 'term_stream']
def gen(rng, i): return streams.gen(rng, 'out')
