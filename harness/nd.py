"""What the core-engine checks share: operations for the non-deterministic driver, the plan, and the comparison with the model."""
import os
import core, plmodel
from core import A, S, V, G, C, T, enc, dec, q, Viol

YX = enc(S('do', S('load', A('/w/yx.wbc'))))       # the x_ predicates again, as byte-code
def plan(case):
    L = ['seed %d' % case['seed'], 'bg %d' % case.get('bg', 0), 'dir /w 755', 'chr /dev/full 2']
    for p, d in case.get('files', []): L.append('file %s 644 %s' % (q(p), q(d)))
    if YX in case['ops']: L.append('file /w/yx.wbc 644 %s' % q(open(os.path.join(core.OUT, 'bank', 'yx.wbc'), encoding='latin-1').read()))
    for f in case.get('faults', []): L.append('fault ' + ' '.join(str(x) if i != 1 else q(x) for i, x in enumerate(f)))
    L += ['std 0 null', 'std 1 pipe', 'std 2 pipe', 'op And']
    for o in case['ops']: L.append('op ' + o)
    return ('driver', ['driver'], '\n'.join(L) + '\n', {'env': dict(case.get('env') or {})})

def observed(r):
    out = []; n = -1
    for l in r.lines:
        if l.startswith('O '): n += 1
        elif l.startswith('L '): out.append((n, l[2:]))
    return out

def judge(case, r, probes, make=None, pid='C10'):
    """the logged history against the one the model predicts"""
    e = make() if make else plmodel.engine()
    try: want = plmodel.predict(e, [A('nd')] + [dec(o) for o in case['ops']])
    except plmodel.Skip as x:
        if r.hung: return None
        probes['skipped'] = 1
        if r.status != 0 and str(x) not in ('cyclic term', 'deep', 'cyclic list', 'variables'): raise Viol('crash', 'status %s at the end of the history (%s): %s' % (r.status, r.end(), r.stray[-200:]))
        return None
    except RecursionError: probes['skipped'] = 1; return None
    got = observed(r)
    for i in range(max(len(want), len(got))):
        w = want[i] if i < len(want) else None; g = got[i] if i < len(got) else None
        if w is None or g is None or w[0] != g[0] or not plmodel.same(w[1], g[1]):
            op = (g or w)[0]
            ot = 'nd' if op < 1 else case['ops'][op - 1] if op - 1 < len(case['ops']) else 'end'
            if g is None and r.status != 0: raise Viol('crash', 'status %s (%s) after operation %d (%s); expected %s; last output: %s' % (r.status, r.end(), op, ot, w, r.stray[-300:]))
            raise Viol('differs', 'operation %d (%s): expected %s, observed %s' % (op, ot, w, g))
    if r.status != 0: raise Viol('crash', 'exit status %s: %s %s' % (r.status, r.end(), r.stray[-300:]))
    for op, t in want:
        k = t.split(' ', 1)[0]
        if k.startswith('S'): k = k[1:k.rindex('/')]
        probes[k] = probes.get(k, 0) + 1
    return e

def excused(case, make=None):
    """the model gives no verdict (cyclic terms)"""
    e = make() if make else plmodel.engine()
    try: plmodel.predict(e, [A('nd')] + [dec(o) for o in case['ops']])
    except (plmodel.Skip, RecursionError): return True
    return False

def reduce(case):
    """simpler operations in place of the ones of the case"""
    for i, o in enumerate(case['ops']):
        t = dec(o)
        for t2 in simpler(t):
            c = dict(case); c['ops'] = list(case['ops']); c['ops'][i] = enc(t2); yield c
def simpler(t):
    if isinstance(t, S) and t.name in ('do', 'raw') and isinstance(t.args[0], S) and t.args[0].name == 'sim_gc' and t.args[0].args[0] > 200: yield S(t.name, S('sim_gc', t.args[0].args[0] // 2, t.args[0].args[1]))

class Gen:
    """random operations for the nd machine; subclasses supply goals"""
    def __init__(self, rng): self.r = rng; self.ops = []; self.id = 0; self.depth = 0
    def ch(self, *a): return self.r.choice(a)
    def p(self, x): return self.r.random() < x
    yx = None
    def mix(self, t):
        """some of the calls go to the byte-code copies"""
        if isinstance(t, S): return S(self.yname(t.name), *[self.mix(x) for x in t.args])
        if isinstance(t, A): return A(self.yname(str(t)))
        if isinstance(t, T): return T([self.mix(x) for x in t.items], self.mix(t.tail))
        if isinstance(t, list): return [self.mix(x) for x in t]
        return t
    def yname(self, n): return 'y' + n[1:] if n.startswith('x_') and n != 'x_open' and self.p(.6) else n
    def op(self, t):
        if self.yx: t = self.mix(t)
        self.ops.append(enc(t)); self.queue.append(t)
    def newid(self): self.id += 1; return self.id
    def scope(self, k): self.op(S('scope', self.newid(), k)); self.depth += 1
    def grow(self, make, n, tries=4):
        """lets the model run the driver while step() chooses the operations"""
        if self.yx: self.ops.insert(0, YX)
        for _ in range(tries):
            self.queue = [dec(o) for o in self.ops]; first = [A('nd')]; self.e = e = make()
            def source(e):
                if first: return first.pop()
                while not self.queue and len(self.ops) < n: self.step()
                return dec(enc(self.queue.pop(0))) if self.queue else None
            e.source = source; e.ops = []
            env = plmodel.St('env', [plmodel.Var() for _ in range(200)])
            try: e.run(plmodel.mk('run_seq', env))
            except (plmodel.Skip, RecursionError, plmodel.PlError):
                if self.ops: del self.ops[-(1 + len(self.queue)):]       # the operation that left the model is not made
                continue
            break
        return self.ops
