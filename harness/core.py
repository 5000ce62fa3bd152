"""Runs simulated worlds: terms, plans, the runner, the search loop, minimisation, replay and evidence."""
import ctypes, hashlib, importlib, json, mmap, os, random, signal, subprocess, sys, time, traceback
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
OUT = os.environ.get('SIM_OUT') or os.path.join(VERIF, '.build')
BIN = os.path.join(OUT, 'bin')

# ---------------------------------------------------------------- terms
class A(str):
    """an atom (text is latin-1: one character per byte)"""
    __slots__ = ()
    def __repr__(self): return 'A(%s)' % str.__repr__(self)
    def __eq__(self, o): return isinstance(o, A) and str.__eq__(self, o)
    def __ne__(self, o): return not self == o
    __hash__ = str.__hash__
class S(tuple):
    """a compound: S('f', a, b)"""
    __slots__ = ()
    def __new__(cls, name, *args): return tuple.__new__(cls, (name,) + args)
    @property
    def name(self): return self[0]
    @property
    def args(self): return self[1:]
    def __repr__(self): return '%s(%s)' % (self[0], ','.join(map(repr, self[1:])))
    def __eq__(self, o): return isinstance(o, S) and tuple.__eq__(self, o)
    def __ne__(self, o): return not self == o
    __hash__ = tuple.__hash__
class V:
    def __init__(self, n): self.n = n
    def __repr__(self): return '_%d' % self.n
    def __eq__(self, o): return isinstance(o, V) and o.n == self.n
    def __hash__(self): return hash(('V', self.n))
class G(V):
    """slot n of the driver's environment (unified by the operation, kept afterwards)"""
class C:
    """a code list; H: a list of one-char atoms"""
    def __init__(self, b): self.b = b
class H(C): pass
class T:
    """a partial list"""
    def __init__(self, items, tail): self.items, self.tail = items, tail
    def __repr__(self): return 'T(%r|%r)' % (self.items, self.tail)
    def __eq__(self, o): return isinstance(o, T) and o.items == self.items and o.tail == self.tail
    def __hash__(self): return hash(('T', tuple(self.items), self.tail))
NIL = []

def q(s):
    """percent-encodes for the plan; '' is '-'"""
    b = s.encode('latin-1') if isinstance(s, str) else s
    if not b: return '-'
    r = []
    for c in b:
        if 32 < c < 127 and c != 37 and not (len(b) == 1 and c == 45): r.append(chr(c))
        else: r.append('%%%02X' % c)
    return ''.join(r)
def qw(s):
    b = s.encode('latin-1') if isinstance(s, str) else s
    return ''.join(chr(c) if 32 < c < 127 and c != 37 else '%%%02X' % c for c in b)
def unq(s):
    if s == '-': return b''
    return unqw(s)
def unqw(s):
    if '%' not in s: return s.encode('latin-1')
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '%': out.append(int(s[i + 1:i + 3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return bytes(out)

def enc(t):
    if isinstance(t, bool): raise TypeError(t)
    if isinstance(t, int): return 'I%d' % t
    if isinstance(t, float): return 'F%r' % t
    if isinstance(t, A): return 'A' + qw(t)
    if isinstance(t, S): return 'S%s/%d' % (qw(t.name), len(t.args)) + ''.join(' ' + enc(x) for x in t.args)
    if isinstance(t, (list,)): return 'L%d' % len(t) + ''.join(' ' + enc(x) for x in t)
    if isinstance(t, T): return 'T%d' % len(t.items) + ''.join(' ' + enc(x) for x in t.items) + ' ' + enc(t.tail)
    if isinstance(t, G): return 'G%d' % t.n
    if isinstance(t, V): return 'V%d' % t.n
    if isinstance(t, H): return 'H' + qw(t.b)
    if isinstance(t, C): return 'C' + qw(t.b)
    raise TypeError(repr(t))

def dec(s):
    toks = s.split(' '); pos = 0
    def go():
        nonlocal pos
        w = toks[pos]; pos += 1
        k = w[0]; r = w[1:]
        if k == 'I': return int(r)
        if k == 'F': return float(r)
        if k == 'A': return [] if r == '[]' else A(unqw(r).decode('latin-1'))
        if k == 'S':
            i = r.rindex('/'); n = int(r[i + 1:]); nm = unqw(r[:i]).decode('latin-1')
            return S(nm, *[go() for _ in range(n)])
        if k == 'L': return [go() for _ in range(int(r))]
        if k == 'T':
            n = int(r); it = [go() for _ in range(n)]; return T(it, go())
        if k == 'V': return V(int(r))
        if k == 'G': return G(int(r))
        if k == 'C': return C(unqw(r))
        if k == 'H': return H(unqw(r))
        raise ValueError(w)
    return go()

# ---------------------------------------------------------------- one simulated run
class Result:
    __slots__ = ('status', 'trace', 'stray', 'hung', '_lines')
    def __init__(self, status, trace, stray, hung): self.status, self.trace, self.stray, self.hung = status, trace, stray, hung; self._lines = None
    @property
    def lines(self):
        if self._lines is None: self._lines = self.trace.decode('latin-1').split('\n')[:-1]
        return self._lines
    def hash(self): return hashlib.sha256(self.trace + b'|%d' % self.status).hexdigest()
    def logs(self): return [dec(l[2:]) for l in self.lines if l.startswith('L ')]
    def per_op(self):
        """[(op index, start ns, [logs], [all lines])]"""
        out = []
        for l in self.lines:
            if l.startswith('O '):
                p = l.split(' '); out.append((int(p[1]), int(p[3]), [], []))
            elif out:
                if l.startswith('L '): out[-1][2].append(dec(l[2:]))
                out[-1][3].append(l)
        return out
    def files(self):
        r = {}
        for l in self.lines:
            if l.startswith('D file '):
                p = l.split(' '); r[unq(p[2]).decode('latin-1')] = unq(p[4])
        return r
    def dirs(self):
        return {unq(l.split(' ')[2]).decode('latin-1') for l in self.lines if l.startswith('D dir ')}
    def fds(self):
        return {int(l.split(' ')[2]): unq(l.split(' ')[3]).decode('latin-1') for l in self.lines if l.startswith('D fd ')}
    def procs(self): return [l for l in self.lines if l.startswith('D proc ')]
    def counters(self):
        for l in reversed(self.lines):
            if l.startswith('D now '):
                p = l.split(' ')[1:]; return {p[i]: (p[i + 1] if p[i] == 'hist' else int(p[i + 1])) for i in range(0, len(p), 2)}
        return {}
    def faults(self):
        r = {}
        for l in self.lines:
            if l.startswith('F '):
                p = l.split(' '); k = '%s %s' % (p[1], p[2]); r[k] = r.get(k, 0) + 1
        return r
    def end(self):
        for l in reversed(self.lines):
            if l.startswith('END '): return l[4:]
        return None

class Runner:
    TCAP = 16 << 20
    def __init__(self):
        try: ctypes.CDLL(None).personality(0x0040000)
        except Exception: pass
        self.tfd = os.memfd_create('trace'); os.ftruncate(self.tfd, self.TCAP); self.mm = mmap.mmap(self.tfd, self.TCAP)
        self.sfd = os.memfd_create('stray'); self.pid = 0; self.hung = False
        self.nul = os.open('/dev/null', os.O_RDONLY)
        signal.signal(signal.SIGALRM, self._alarm)
    def _alarm(self, *_):
        self.hung = True
        if self.pid:
            try: os.killpg(self.pid, signal.SIGKILL)
            except OSError: pass
    def run(self, prog, argv, plan, env=None, guard=30.0):
        if isinstance(plan, str): plan = plan.encode('latin-1')
        pfd = os.memfd_create('plan'); os.write(pfd, plan) if len(plan) < (1 << 20) else _wall(pfd, plan)
        self.mm[:16] = b'\0' * 16
        os.ftruncate(self.sfd, 0); os.lseek(self.sfd, 0, 0)
        e = {'PATH': '/usr/bin:/bin', 'HOME': '/home/user', 'TZ': 'UTC', 'LC_ALL': 'C', 'MALLOC_PERTURB_': '165', 'USER': 'user', 'LINENO': '1',
             'LD_PRELOAD': os.path.join(BIN, 'libsim.so'), 'SIM_PLAN': '10', 'SIM_TRACE': '11'}
        if env: e.update(env)
        fa = [(os.POSIX_SPAWN_DUP2, pfd, 100), (os.POSIX_SPAWN_DUP2, self.tfd, 101), (os.POSIX_SPAWN_DUP2, self.sfd, 102), (os.POSIX_SPAWN_DUP2, self.nul, 0),
              (os.POSIX_SPAWN_DUP2, 102, 1), (os.POSIX_SPAWN_DUP2, 102, 2), (os.POSIX_SPAWN_DUP2, 100, 10), (os.POSIX_SPAWN_DUP2, 101, 11),
              (os.POSIX_SPAWN_CLOSE, 100), (os.POSIX_SPAWN_CLOSE, 101), (os.POSIX_SPAWN_CLOSE, 102)]
        self.hung = False
        self.pid = os.posix_spawn(os.path.join(BIN, prog), argv, e, file_actions=fa, setpgroup=0, setsigdef=[signal.SIGALRM, signal.SIGINT, signal.SIGPIPE, signal.SIGTERM])
        signal.setitimer(signal.ITIMER_REAL, guard)
        try: _, st = os.waitpid(self.pid, 0)
        finally: signal.setitimer(signal.ITIMER_REAL, 0)
        try: os.killpg(self.pid, signal.SIGKILL)
        except OSError: pass
        self.pid = 0
        os.close(pfd)
        n = int.from_bytes(self.mm[:8], 'little')
        tr = bytes(self.mm[16:16 + n])
        sz = os.fstat(self.sfd).st_size
        stray = os.pread(self.sfd, min(sz, 20000), 0) if sz else b''
        code = os.waitstatus_to_exitcode(st)
        if code == 96 or code == 127 or b'SIMERROR' in tr[-2000:]:
            raise SimError('simulator error: status %s, %s %s' % (code, tr[-500:], stray[:500]))
        return Result(code, tr, stray, self.hung)
def _wall(fd, b):
    n = 0
    while n < len(b): n += os.write(fd, b[n:n + (1 << 20)])

class SimError(Exception): pass
class Viol(Exception):
    """raised by a judge: key names the class of the violation (kept by minimisation)"""
    def __init__(self, key, msg): self.key, self.msg = key, msg; Exception.__init__(self, key, msg)

_runner = None
def runner():
    global _runner
    if _runner is None: _runner = Runner()
    return _runner

# ---------------------------------------------------------------- checks
def load(pid):
    sys.path.insert(0, HERE)
    return importlib.import_module(pid.lower())

def execute(mod, case):
    """runs a case and judges it -> (violation or None, [results], probes)"""
    probes = {}
    if hasattr(mod, 'runs'):               # several simulated runs per case (variants)
        rs = [runner().run(*r[:3], **(r[3] if len(r) > 3 else {})) for r in mod.runs(case)]
    else:
        r = mod.plan(case); rs = [runner().run(*r[:3], **(r[3] if len(r) > 3 else {}))]
    try:
        for r in rs:
            if r.hung and not (hasattr(mod, 'excused') and mod.excused(case)): raise Viol('hang', 'the process did not end (stopped by the real-time guard); last events: %s' % r.lines[-3:])
        mod.judge(case, rs if hasattr(mod, 'runs') else rs[0], probes)
        v = None
    except Viol as e: v = (e.key, e.msg)
    return v, rs, probes

def case_of(mod, seed, i):
    rng = random.Random('%d:%s:%d' % (seed, mod.ID, i))
    pinned = getattr(mod, 'PINNED', [])
    if i < len(pinned): return json.loads(json.dumps(pinned[i]))
    return json.loads(json.dumps(mod.gen(rng, i)))

def _task(a):
    pid, seed, lo, hi, twice = a
    out = []
    mod = load(pid)
    for i in range(lo, hi):
        try:
            case = case_of(mod, seed, i)
            v, rs, probes = execute(mod, case)
            h = hashlib.sha256(''.join(r.hash() for r in rs).encode()).hexdigest()
            if twice and i % twice == 0:
                _, rs2, _ = execute(mod, case)
                h2 = hashlib.sha256(''.join(r.hash() for r in rs2).encode()).hexdigest()
                if h2 != h and v is None: raise SimError('case %d is not deterministic' % i)
                probes['reruns_identical'] = 1
            f = {}; sim = 0; calls = 0; acts = 0; runs = len(rs); hists = []
            for r in rs:
                for k, n in r.faults().items(): f[k] = f.get(k, 0) + n
                c = r.counters(); sim += c.get('elapsed', 0); calls += c.get('calls', 0); acts += c.get('actsteps', 0); hists.append(c.get('hist', '') + '.' + hashlib.sha256(shape(r)).hexdigest()[:16])
            nt = mod.nontrivial(case, rs) if hasattr(mod, 'nontrivial') else bool(f or acts or len(case.get('ops', [])) > 3)
            out.append((i, v, h, f, sim, calls, acts, probes, hists, nt, runs))
        except SimError as e: out.append((i, 'error', str(e)))
        except Exception: out.append((i, 'error', traceback.format_exc()))
    return out

def shape(r):
    """the sequence of calls and events without their data: what 'distinct interleaving' is measured on"""
    b = bytearray()
    for l in r.lines:
        if l[0] in 'sFAO': b += b' '.join(x.encode('latin-1') for x in l.split(' ')[:3]) + b'\n'
        elif l[0] == 'L': b += l[:60].split(' ')[1].encode('latin-1') + b'\n'
    return bytes(b)

def known_list():
    r = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: '):
                w = l.split(None, 3); r.append((w[1].split('=', 1)[1], w[2].split('=', 1)[1], w[3].strip()))
    return r

def minimise(mod, case, key, budget=60.0):
    t0 = time.time(); best = case; n = 0
    def bad(c):
        nonlocal n
        n += 1
        try:
            c = json.loads(json.dumps(c))
            if hasattr(mod, 'normalise'): c = mod.normalise(c)
            v, _, _ = execute(mod, c)
            return c if v and v[0] == key else None
        except Exception: return None
    again = True
    while again and time.time() - t0 < budget:
        again = False
        for field in getattr(mod, 'SHRINK', ('faults', 'ops', 'actors', 'files')):
            k = max(1, len(best.get(field, [])) // 2)
            while k >= 1 and time.time() - t0 < budget:
                i = 0
                while i < len(best.get(field, [])) and time.time() - t0 < budget:
                    c = dict(best); c[field] = best[field][:i] + best[field][i + k:]
                    r = bad(c)
                    if r is not None and len(r.get(field, [])) < len(best[field]): best = r; again = True
                    else: i += k
                k //= 2
        if hasattr(mod, 'reduce'):
            for c in mod.reduce(best):
                if time.time() - t0 > budget: break
                r = bad(c)
                if r is not None and json.dumps(r) != json.dumps(best) and len(json.dumps(r)) <= len(json.dumps(best)): best = r; again = True; break
    return best, n

def write_replay(mod, case, key, msg, h, seed, i):
    d = os.path.join(VERIF, 'replays'); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.json' % (mod.ID, hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]))
    plan = mod.runs(case) if hasattr(mod, 'runs') else [mod.plan(case)]
    json.dump({'property': mod.ID, 'seed': seed, 'index': i, 'key': key, 'message': msg, 'trace_sha256': h, 'case': case,
               'plans': [x[2].split('\n') for x in plan]}, open(p, 'w'), indent=1)
    return p

def replay(path):
    d = json.load(open(path)); mod = load(d['property'])
    v, rs, _ = execute(mod, d['case'])
    h = hashlib.sha256(''.join(r.hash() for r in rs).encode()).hexdigest()
    return d, v, h, rs

def build():
    r = subprocess.run([os.path.join(VERIF, 'build.sh'), OUT], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stdout.write(r.stdout.decode('latin-1')); print('ERROR: the build failed'); sys.exit(2)

def main():
    pid = sys.argv[1]
    if pid == '--replay':
        if os.environ.get('SIM_NOBUILD') != '1': build()
        d, v, h, rs = replay(sys.argv[2])
        if '-v' in sys.argv:
            for r in rs: print('\n'.join(r.lines))
        same = v is not None and v[0] == d['key'] and h == d['trace_sha256']
        print('replay: %s, trace %s' % ('no violation' if v is None else 'violation %s: %s' % v, 'identical' if h == d['trace_sha256'] else 'differs (%s)' % h[:12]))
        if v is not None: print('VIOLATION property=%s replay=%s' % (d['property'], sys.argv[2]))
        sys.exit(1 if same else 3 if v is not None else 0)
    seed = int(os.environ.get('VERIF_SEED', '1')); tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'): tier = sys.argv[2]
    t0 = time.time()
    if os.environ.get('SIM_NOBUILD') != '1': build()
    tb = time.time()
    mod = load(pid)
    n = int(os.environ.get('SIM_N', 0)) or (mod.QUICK if tier == 'quick' else getattr(mod, 'THOROUGH', mod.QUICK * 15))
    cap = float(os.environ.get('SIM_CAP', 0)) or (300 if tier == 'quick' else 3000)
    jobs = int(os.environ.get('SIM_JOBS', 0)) or min(8, os.cpu_count() or 1)
    step = 10 if n >= 800 else max(1, n // 80)
    twice = getattr(mod, 'TWICE', 50)
    known = [k for k in known_list() if k[0] == mod.ID]
    kk = {k[1] for k in known}
    tot = dict(cases=0, runs=0, sim=0, calls=0, acts=0, nt=0)
    faults, probes, shapes, nts, viols, errors, samples = {}, {}, set(), set(), [], [], []
    with mp.get_context('fork').Pool(jobs) as pool:
        for out in pool.imap_unordered(_task, [(pid, seed, lo, min(n, lo + step), twice) for lo in range(0, n, step)]):
            for o in out:
                if o[1] == 'error': errors.append(o); continue
                i, v, h, f, sim, calls, acts, pr, hists, nt, runs = o
                tot['cases'] += 1; tot['runs'] += runs; tot['sim'] += sim; tot['calls'] += calls; tot['acts'] += acts
                for k, x in f.items(): faults[k] = faults.get(k, 0) + x
                for k, x in pr.items(): probes[k] = probes.get(k, 0) + x
                shapes.update(hists)
                if nt: nts.add(h)
                if v: viols.append((i, v, h))
            if time.time() - t0 > cap or sum(v[1][0] not in kk for v in viols) > 40 or len(errors) > 20: break
        pool.terminate()
    wall = time.time() - tb
    fresh = sorted([v for v in viols if v[1][0] not in kk])
    verdict = 0; lines = []
    if fresh:
        seen = set(); lost = 0
        for i, v, h in fresh:
            if v[0] in seen or len(seen) >= 3 or lost > 12: continue
            case = case_of(mod, seed, i)
            for _ in range(4):
                v2, rs2, _ = execute(mod, case); h2 = hashlib.sha256(''.join(r.hash() for r in rs2).encode()).hexdigest()
                if v2: break
            if v2 is None: lines.append('note: case %d: violation %s did not repeat' % (i, v)); lost += 1; continue
            if v2[0] in kk: continue
            if h2 != h and v[0] != 'hang': lines.append('note: case %d: the two executions differ' % i)
            v = v2
            small, tries = minimise(mod, case, v[0], 5.0 if v[0] == 'hang' else 40.0)
            v3, rs3, _ = execute(mod, small); h3 = hashlib.sha256(''.join(r.hash() for r in rs3).encode()).hexdigest()
            p = write_replay(mod, small, v3[0], v3[1], h3, seed, i)
            r = subprocess.run([sys.executable, os.path.join(HERE, 'core.py'), '--replay', p], env=dict(os.environ, SIM_NOBUILD='1', PYTHONHASHSEED='7'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 1 and not (v[0] == 'hang' and r.returncode == 3):
                lines.append('note: replay of %s did not reproduce it exactly: %s' % (p, r.stdout.decode('latin-1')[-300:]))
                if r.returncode == 0: lost += 1; continue
            lines.append('case %d (seed %d), minimised in %d runs: [%s] %s' % (i, seed, tries, v3[0], v3[1]))
            lines.append('VIOLATION property=%s replay=%s' % (mod.ID, os.path.relpath(p, VERIF))); verdict = 1; seen.add(v[0])
        if not verdict: verdict = 3; lines.append('ERROR: no violation could be repeated')
    for k in known:                         # each listed finding is demonstrated again from its own pinned case
        fp = os.path.join(VERIF, 'findings', '%s-%s.json' % (k[0], k[1]))
        ok = any(v[1][0] == k[1] for v in viols)
        if not ok and os.path.exists(fp):
            v, _, _ = execute(mod, json.load(open(fp))['case']); ok = v is not None and v[0] == k[1]
        if ok: print('KNOWN-FINDING: property=%s %s' % (k[0], k[2]))
    for e in errors[:5]: lines.append('ERROR: case %s: %s' % (e[0], e[2]))
    if errors and verdict == 0: verdict = 3
    for i in range(min(2, n)): samples.append({'index': i + len(getattr(mod, 'PINNED', [])), 'case': json.loads(json.dumps(case_of(mod, seed, i + len(getattr(mod, 'PINNED', [])))))})
    for s in samples:
        if len(json.dumps(s)) > 6000: s['case'] = json.dumps(s['case'])[:6000]
    ev = {'property': mod.ID, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(time.time() - t0, 1), 'violations': len(fresh),
          'coverage': {'evaluations': tot['cases'], 'distinct_nontrivial': len(nts), 'rule': mod.RULE, 'samples': samples,
                       'simulated_runs': tot['runs'], 'seeds': tot['cases'], 'seeds_per_hour': int(tot['cases'] * 3600 / max(wall, 0.001)), 'simulated_runs_per_hour': int(tot['runs'] * 3600 / max(wall, 0.001)),
                       'simulated_seconds_covered': round(tot['sim'] / 1e9, 3), 'system_calls_simulated': tot['calls'], 'actor_steps': tot['acts'],
                       'faults_fired': dict(sorted(faults.items())), 'distinct_schedules': len(shapes), 'distinct_schedules_measure': 'hash of the sequence of (system call or event, first two arguments) of a run together with the schedule hash of the simulator',
                       'probes': dict(sorted(probes.items())), 'reruns_for_determinism': probes.get('reruns_identical', 0),
                       'real_components': mod.REAL, 'stubbed_components': mod.STUB},
          'assumptions': ['the simulated kernel (sim/libsim.c) behaves like Linux for the calls used', 'sampling, not enumeration: a clean batch is evidence, not proof']}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', mod.ID + '.json'), 'w'), indent=1)
    for l in lines: print(l)
    print('%s %s: %d cases, %d runs, %.1f simulated s, %d distinct schedules, %d faults, %d violations (%d known), %.0f s' % (mod.ID, tier, tot['cases'], tot['runs'], tot['sim'] / 1e9, len(shapes), sum(faults.values()), len(viols), len(viols) - len(fresh), time.time() - t0))
    zero = [p for p in getattr(mod, 'PROBES', []) if not probes.get(p)]
    if zero: print('note: probes never hit: %s' % zero)
    sys.exit(verdict)

if __name__ == '__main__':
    sys.modules['core'] = sys.modules['__main__']
    main()
