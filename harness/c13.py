"""C13: when a resource runs out the program gives the right answer or stops with the error that names it"""
import re
from core import A, S, V, Viol, enc, dec
ID = 'C13'
QUICK = 16000
THOROUGH = 60000
TWICE = 50
SHRINK = ('ops', 'limits')
RULE = 'a run in which a limit or a failing allocation was reached (the program stopped with a fatal error or caught an exception)'
REAL = ['the engine, its stacks, guard pages and signal handler, the atom table and the allocation of memory, the built-in predicates of the tasks, built from the tree']
STUB = ['kernel and memory allocator replaced by sim/libsim.c (the allocations of the program fail where the plan says; stacks and guard pages are real memory)']
ORACLE = 'closed forms of the results of the tasks; the reported stack, size and variable are compared with the limits of the plan'
PROBES = ['global', 'local', 'trail', 'cstr', 'atom', 'malloc', 'full', 'limited_ok', 'early', 'mmap']

tri = lambda n: n * (n + 1) // 2
def wlen(n): return sum(len(str(i)) for i in range(1, n + 1)) + (n - 1) + 2 if n else 2
def pairs(*l): return S('-', *l)
def tlen(d):          # the length of the text of tree(d)
    return 4 if d == 0 else 2 + 2 * tlen(d - 1) + len(str(d)) + 3 - 0 - 1 + 1 - 0
def sets(n): return n * 2
def bag(n):
    out = []
    for k in range(3):
        xs = [x for x in range(1, n + 1) if x % 3 == k]
        if xs: out.append(pairs(k, sum(xs)))
    return out
def srt(n):
    v = [i * 7919 % 97 for i in range(1, n + 1)]
    return S('s', len(set(v)), n, n)
# task -> (result, stacks that may run out beside the memory, smallest, largest parameter)
T = {
 'list': (lambda n: tri(n), 1, 60000), 'local': (tri, 1, 60000), 'choice': (lambda n: n, 1, 40000), 'enum': (lambda n: n + 2, 1, 30000),
 'trail': (lambda n: pairs(7 * n, n), 1, 50000), 'trail2': (lambda n: n, 1, 30000), 'fall': (lambda n: pairs(tri(n), n), 1, 30000), 'fa4': (tri, 1, 30000),
 'bag': (bag, 1, 8000), 'set': (sets, 1, 6000), 'cpy': None, 'copy': (tri, 1, 40000), 'copyv': (lambda n: 2 * n, 1, 30000),
 'atomlen': (lambda n: n, 1, 30000), 'atomcat': (lambda n: n, 1, 2000), 'subs': (lambda n: n + 1, 1, 1500), 'atoms': (lambda n: n, 1, 8000), 'newatoms': (lambda n: n, 1, 8000),
 'asrt': (lambda n: pairs(tri(n), 0), 1, 4000), 'assertb': (lambda n: pairs(tri(n), tri(n)), 2, 8000), 'asserti': (tri, 1, 3000), 'retr': (tri, 1, 3000),
 'srt': (srt, 1, 20000), 'text': (lambda n: pairs(wlen(n), tri(n)), 1, 8000), 'textt': None, 'texta': (wlen, 1, 6000), 'fmt': (lambda n: wlen(n) + 5, 1, 6000),
 'istream': (lambda n: n, 1, 20000), 'ostream': (lambda n: n, 1, 20000), 'fileio': (lambda n: n, 1, 9000), 'streams': (lambda n: n, 1, 200),
 'trees': (lambda d: pairs(A('='), 2 ** d), 1, 13), 'vtree': (lambda d: 2 ** d, 1, 12), 'univ': (lambda n: S('r', A('f'), n, 3 * n), 1, 255),
 'gv': (tri, 1, 20000), 'ga': (lambda n: pairs(tri(n), 5), 2, 20000), 'ball': (tri, 1, 20000),
 'app2': (lambda n: S('r', 1, n, n), 1, 30000), 'memb': (lambda n: n // 2, 1, 20000), 'suml': (lambda n: pairs(tri(n), n), 1, 40000),
 'fdchain': (lambda n: pairs(1, n + 1), 2, 60), 'fdlab': (lambda n: n * (n - 1) // 2, 2, 40), 'fdsum': (lambda n: 3, 2, 60), 'fdvec': (lambda n: [0], 2, 30000),
}
T = {k: v for k, v in T.items() if v}
BIG = {'fd': ('fdchain', 'fdlab', 'fdsum', 'fdvec'), 'atom': ('atoms', 'newatoms', 'atomcat', 'subs', 'asserti'), 'trail': ('trail', 'trail2', 'choice', 'enum', 'fdchain', 'vtree', 'copyv', 'copy')}
VARS = {'GLOBALSZ': 'global', 'LOCALSZ': 'local', 'TRAILSZ': 'trail', 'CSTRSZ': 'cstr'}

def size(r, lo, hi):
    """mostly small, sometimes large: the logarithm is uniform"""
    import math
    return int(round(math.exp(r.uniform(math.log(lo), math.log(hi)))))
def gen(r, i):
    lim = {}; x = r.random(); pool = list(T)
    if x < .72:
        for v in r.sample(list(VARS), r.choice((1, 1, 1, 2, 4))): lim[v] = size(r, 4, 6000) if r.random() < .95 else r.choice((0, 1, 2, 3))
        if 'CSTRSZ' in lim and r.random() < .8: pool = list(BIG['fd']); lim['CSTRSZ'] = size(r, 4, 200)
        elif 'TRAILSZ' in lim and r.random() < .6: pool = list(BIG['trail']); lim['TRAILSZ'] = size(r, 4, 1000)
    if x > .66 and x < .8: lim['MAX_ATOM'] = size(r, 256, 12000); pool = list(BIG['atom']) if r.random() < .8 else pool
    ops = []
    for _ in range(r.randrange(1, 6)):
        t = r.choice(pool); _, lo, hi = T[t]; ops.append([t, size(r, lo, hi)])
    mf = None
    if x >= .8:
        mf = [size(r, 1, 4000) if r.random() < .8 else size(r, 1, 60), r.choice((1, 1, 1, 2, 10, 1000000))]
        if r.random() < .1: mf = ['mmap', r.choice((1, 1, 2, 5))]
    return {'seed': r.randrange(1 << 30), 'limits': sorted(lim.items()), 'mfail': mf, 'ops': ops}
def plan(case):
    L = ['seed %d' % case['seed'], 'bg 0', 'dir /w 777', 'dir /d 777', 'maxsteps 3000000', 'std 0 null', 'std 1 file /w/stdout', 'std 2 file /w/stderr', 'memcount']
    if case['mfail']:
        if case['mfail'][0] == 'mmap': L.append('fault mmap mmap 1 %d ENOMEM' % case['mfail'][1])
        else: L.append('mfail %d %d' % tuple(case['mfail']))
    for t, n in case['ops']: L.append('op ' + enc(S(t, n)))
    return ('res', ['res'], '\n'.join(L) + '\n', {'env': {k: str(v) for k, v in case['limits']}})

FATAL = re.compile(r'\nFatal Error: ([^\n]*)\n')
def judge(case, r, probes):
    def hit(k): probes[k] = probes.get(k, 0) + 1
    lim = dict(case['limits']); mf = case['mfail']; mfired = any(l.startswith('F ENOMEM') for l in r.lines)
    logs = r.logs(); n = 0; done = False; exc = False
    for x in logs:
        if done: raise Viol('log', 'something is logged after the end: %s' % (x,))
        if str(x) == 'end': done = True; continue
        if n >= len(case['ops']): raise Viol('log', 'more answers than tasks: %s' % (x,))
        t, k = case['ops'][n]; n += 1
        if str(x) == 'failed': raise Viol('failed', 'task %s(%d) fails' % (t, k))
        v = x.args[0]
        if isinstance(v, S) and v.name == 'ex':
            e = v.args[0]; kind = e.args[0] if isinstance(e, S) and e.name == 'error' else None
            ok = mfired and isinstance(kind, S) and kind.name in ('resource_error', 'system_error', 'representation_error') or isinstance(kind, S) and kind.name == 'resource_error'
            if not ok: raise Viol('exception', 'task %s(%d) raises %s' % (t, k, e))
            exc = True; hit('exception'); continue
        w = T[t][0](k)
        if v != w and str(v) != str(w): raise Viol('wrong', 'task %s(%d) gives %s, right is %s (limits %s, failing allocations %s)' % (t, k, v, w, lim, mf))
    err = r.files().get('/w/stderr', b'').decode('latin-1') + r.stray.decode('latin-1')
    m = FATAL.search(err)
    if r.status < 0: raise Viol('crash', 'the process died by signal %d (%s), %s' % (-r.status, r.end(), err[-200:]))
    if r.status == 0:
        if not done or n != len(case['ops']): raise Viol('success', 'exit status 0 after %d of %d tasks: %s' % (n, len(case['ops']), err[-200:]))
        if m: raise Viol('success', 'exit status 0 with %s' % m.group(1))
        hit('full')
        if lim or mfired: hit('limited_ok')
        return
    if r.status in (97, 98): raise Viol('hang', 'the process did not end (%s)' % r.end())
    if not m: raise Viol('silent', 'exit status %d without a message: %r' % (r.status, err[-300:]))
    msg = m.group(1); ml = msg.lower()
    if done: raise Viol('late', 'a fatal error after the end: %s' % msg)
    if r.status != 1: raise Viol('status', 'exit status %d with %s' % (r.status, msg))
    s = re.match(r'(\w+) stack overflow \(size: (-?\d+) Kb, environment variable used: (\w+)\)$', msg)
    if n == 0: hit('early')
    if s:
        w = s.group(1).lower()
        if VARS.get(s.group(3)) != w: raise Viol('message', 'the wrong variable is named: %s' % msg)
        if s.group(3) not in lim: raise Viol('message', 'a stack that is ample runs out: %s (limits %s)' % (msg, lim))
        want = lim[s.group(3)]; got = int(s.group(2))
        if not want <= got < want + 4 + 4: raise Viol('message', '%s, but its size was set to %d' % (msg, want))
        hit(w); return
    if ml.startswith('atom table full'):
        if 'MAX_ATOM' not in lim: raise Viol('message', 'the atom table is not limited: %s' % msg)
        w = re.match(r'atom table full \(max atom: (\d+), environment variable used: max_atom\)$', ml)
        if not w or not max(256, lim['MAX_ATOM']) <= int(w.group(1)) <= lim['MAX_ATOM'] + 300: raise Viol('message', '%s, but its size was set to %d' % (msg, lim['MAX_ATOM']))
        hit('atom'); return
    if 'memory allocation fault' in ml or 'cannot allocate memory' in ml:
        if not mfired: raise Viol('message', 'no allocation failed: %s (limits %s)' % (msg, lim))
        hit('malloc')
        if mf[0] == 'mmap': hit('mmap')
        return
    raise Viol('message', 'the error does not name the resource: %s (limits %s, failing allocations %s)' % (msg, lim, mf))
def nontrivial(case, rs): return rs[0].status != 0 or any(' Sex/' in l for l in rs[0].lines)
def reduce(c):
    for i, (t, n) in enumerate(c['ops']):
        for m in (n // 2, n * 3 // 4, n - 1):
            if m >= T[t][1]:
                d = dict(c); d['ops'] = c['ops'][:i] + [[t, m]] + c['ops'][i + 1:]; yield d
