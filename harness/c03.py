import streams
from streams import make_plan as plan, judge, normalise, reduce
ID = 'C03'
QUICK = 24000
THOROUGH = 400000
TWICE = 50
RULE = 'a history with opens, closes, aliases, mirrors or current-stream changes compared with the model registry'
REAL = ['the GNU Prolog engine and built-in library (stream, character, term input/output, DEC-10 I/O), built from the tree', 'glibc stdio buffering']
STUB = ['kernel (files, pipes, descriptors, clock) replaced by sim/libsim.c', 'the process feeding standard input is a scripted actor']
PROBES = ['exception', 'open_refused_late', 'iterated_while_closing', 'dec10', 'term_stream']
def gen(rng, i): return streams.gen(rng, 'reg')
