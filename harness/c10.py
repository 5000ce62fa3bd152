"""C10: the logical update view"""
import functools, os
import core, nd, plmodel, bank
from core import A, S, V, G, C, T, enc, dec
from nd import reduce
ID = 'C10'
QUICK = 20000
THOROUGH = 300000
TWICE = 50
SHRINK = ('ops',)
RULE = 'a history in which an iteration was resumed after the predicate it runs over had been changed'
REAL = ['the GNU Prolog engine and built-in library (dynamic clauses, indexing, interpreter of asserted clauses), built from the tree']
STUB = ['kernel replaced by sim/libsim.c', 'the decision which suspended iteration goes on, and which update comes next, is taken by the plan']
PROBES = ['sol', 'exhausted', 'ok', 'ex', 'left', 'failed', 'caught', 'all', 'top_ex']
ORACLE = 'an independent interpreter (harness/plmodel.py) in which every iteration runs over the list of clauses copied when it started'

def d_gc(self, n, k):
    'sim_gc/2'
    self.db.pop(('dg', 2), None)
    if plmodel.deref(k).name != 'abolish': self.db[('dg', 2)] = []
    return True
@functools.lru_cache(None)
def dynprog(m):
    e = plmodel.Engine(); out = {}
    for h, b in bank.dynmod(m):
        vs = {}; h = plmodel.conv(h, vs, None); b = e.norm_body(plmodel.conv(b, vs, None))
        out.setdefault((h.name, len(h.args)) if h.__class__ is plmodel.St else (h.name, 0), []).append((h, b))
    return list(out.items())
def d_load(self, f):
    'load/1'
    for k, cl in dynprog(int(plmodel.deref(f).name[4:-4])):         # what was there goes, the clauses of the file come
        for c in self.db.get(k, []): c.alive = False
        self.db[k] = [plmodel.mkclause(h, b) for h, b in cl]
    return True
class Eng(plmodel.Engine):
    d_gc = d_gc; d_load = d_load
def make(): 
    e = plmodel.engine(Eng); e.static = {k: v for k, v in e.static.items() if not k[0].startswith('sim_gc')}; return e

def plan(case):
    c = dict(case); c['files'] = [['/w/d%d.wbc' % m, open(os.path.join(core.OUT, 'bank', 'yd%d.wbc' % m), encoding='latin-1').read()] for m in case.get('mods', [])]
    return nd.plan(c)
class Gen(nd.Gen):
    def load(self):
        m = self.r.randrange(bank.ND); self.mods.add(m); return S('load', A('/w/d%d.wbc' % m))
    def val(self, d=0, nv=True):
        x = self.r.random()
        if x < .30: return A(self.ch('a', 'b', 'c', 'd', '', 'A b', '[]' if False else 'e'))
        if x < .52: return self.ch(0, 1, 2, 3, -1, 7, 1 << 40, (1 << 60) - 1, -(1 << 60), 97)
        if x < .58: return self.ch(0.0, 1.0, 1.5, -2.5)
        if x < .63: return []
        if d < 2 and x < .73: return [self.val(d + 1, nv) for _ in range(self.r.randrange(1, 3))]
        if d < 2 and x < .76 and nv: return T([self.val(d + 1, nv)], V(self.r.randrange(4)))
        if d < 2 and x < .90: return self.ch(lambda: S('f', self.val(d + 1, nv)), lambda: S('g', self.val(d + 1, nv)), lambda: S('f', self.val(d + 1, nv), self.val(d + 1, nv)), lambda: S('.', self.val(d + 1, nv)))()
        if nv: return V(self.r.randrange(4))
        return A('z')
    def key(self):                  # a first argument: concentrated so that index chains get long
        x = self.r.random()
        return A(self.ch('a', 'b')) if x < .3 else self.ch(1, 2) if x < .5 else S('f', self.ch(A('a'), V(0), 1)) if x < .62 else self.ch([A('a')], T([V(1)], V(2))) if x < .72 else V(0) if x < .9 else self.val()
    def head(self, pr=None):
        pr = pr or self.ch('d1', 'd1', 'd1', 'd2', 'd2', 'd2', 'd0', 'e1')
        if pr == 'd0': return A('d0')
        if pr == 'd2': return S('d2', self.key(), self.val())
        return S(pr, self.key())
    def gen_head(self, pr=None):    # a pattern to look for: more often open
        h = self.head(pr)
        if isinstance(h, S) and self.p(.45): h = S(h.name, *[V(10 + i) if self.p(.8) else x for i, x in enumerate(h.args)])
        return h
    LOWER = {'e1': ('d1', 'd2', 'd0'), 'd1': ('d2', 'd0'), 'd2': ('d0',), 'd0': ()}
    long = False
    def body(self, pr):
        x = self.r.random()
        if self.long and x < .5:         # several goals, one of which is left with a choice point
            v = lambda: V(self.r.randrange(5))
            t = [S('sim_deep', v()) if self.p(.7) else self.ch(*[self.gen_head(l) for l in self.LOWER[pr]] or [S('sim_deep2', v())])]
            for _ in range(self.ch(1, 2, 3)):
                g = self.ch(S('sim_logt', S('b', v(), v())), S('=', v(), S('f', v(), v())), S('sim_true', v()), S('x_same', v(), v()), S('sim_deep2', v()), S('x_same', S('g', v()), v()), S('call', S('=', v(), v())))
                t.insert(0 if self.p(.25) else len(t), g)
            y = t.pop()
            while t: y = S(',', t.pop(), y)
            return y
        low = self.LOWER[pr]
        calls = [self.gen_head(l) for l in low] + [S('=', V(0), V(self.r.randrange(4))), A('true')]
        one = lambda: self.ch(*calls) if self.p(.5) else self.ch(A('!'), A('fail'), S('sim_logt', S('b', self.r.randrange(9), V(0))), S('throw', S('t', V(0))), S('retract', self.gen_head()), S('assertz', self.head()), S('asserta', self.head()), S('retractall', self.gen_head()), S('call', self.ch(*calls)), S('\\+', self.ch(*calls)), S('sim_logt', A('x')))
        if x < .4: return one()
        if x < .75: return S(',', one(), one())
        if x < .85: return S(';', one(), one())
        if x < .93: return S(';', S('->', one(), one()), one())
        return S(',', one(), S(',', A('!'), one()))
    def clause(self):
        h = self.head(); pr = h if isinstance(h, A) else h.name
        if self.p(self.rules): return S(':-', h, self.body(str(pr)))
        return h
    def update(self):
        if self.p(.03): return self.bad()
        if self.bc and self.p(.03): return self.load()
        x = self.r.random()
        if x < .34: return S('assertz', self.clause())
        if x < .54: return S('asserta', self.clause())
        if x < .80: return S('retract', self.gen_head() if self.p(.7) else S(':-', self.gen_head(), V(30)))
        if x < .92: return S('retractall', self.gen_head())
        if self.big and x < .96: return self.ch(S('sim_thin', self.ch(1, 2, 3)), S('sim_keep', self.ch(2, 50)), S('sim_fill', self.ch(5, 110, 1100), A(self.ch('int', 'same', 'stc', 'lst', 'var', 'mix'))))
        if x < .93: return S('abolish', self.ch(S('/', A('d1'), 1), S('/', A('d2'), 2), S('/', A('d0'), 0), S('/', A('e1'), 1)))
        return S('sim_gc', self.ch(30, 120, 160, 1001, 1001), A(self.ch('fail', 'all', 'some', 'abolish', 'one', 'skip', 'skip')))
    def bad(self):
        h = self.gen_head()
        return self.ch(S('assertz', V(0)), S('assertz', 3), S('asserta', S(':-', h, 4)), S('assertz', S(':-', h, S(',', A('true'), 4))), S('assertz', S('nd', V(0))), S('retract', S('nd', V(0))), S('retract', V(1)), S('retract', S(':-', h, 4)),
            S('clause', S('nd', V(0)), V(1)), S('clause', V(0), V(1)), S('clause', 4, V(1)), S('clause', h, 5), S('retractall', V(3)), S('retractall', S('nd', V(0))), S('abolish', S('/', A('nd'), 1)), S('assertz', S(':-', V(0), A('true'))), S('assertz', S(':-', 3, A('true'))))
    def iter(self):
        if self.p(.02): return self.bad()
        x = self.r.random()
        if x < .4: return self.gen_head()
        if x < .65: return S('clause', self.gen_head(), V(40))
        if x < .92: return S('retract', self.gen_head() if self.p(.6) else S(':-', self.gen_head(), V(40)))
        return S(',', self.gen_head(), self.update())
    def running(self):
        """a clause that runs is erased, and collected if it could be; then it goes on"""
        h = lambda pr: S(pr, *[V(50 + i) for i in range(int(pr[1]))]) if pr != 'd0' else A(pr)
        ps = ['d1', 'd2', 'd2', 'd0']; pr = self.ch(*ps); n = 0
        for _ in range(self.ch(1, 1, 2)):
            g = h(pr)
            if self.p(.2): g = S(',', g, S('sim_deep', V(60)))
            self.op(S('open', self.newid(), g)); n += 2
            if self.p(.3): pr = self.ch(*ps)
        if self.p(.2): self.scope(self.ch(A('once'), A('call'), S('catch', V(0)), A('ite')))
        if self.p(.2): self.op(S('open', self.newid(), self.ch(S('sim_deep2', V(61)), S('between', 1, 2, V(61)))))
        for _ in range(self.ch(1, 1, 2)):
            if self.p(.2): self.op(A('retry'))
            self.op(S('do', self.ch(S('retractall', h(pr)), S('retractall', h(pr)), S('abolish', S('/', A(pr), len(h(pr).args) if pr != 'd0' else 0)), self.load(), S('retract', S(':-', h(pr), V(62))))))
        for _ in range(self.ch(1, 1, 2)): self.op(S('do', S('sim_gc', self.ch(1001, 1001, 1001, 500, 2000), A(self.ch('fail', 'all', 'some', 'abolish', 'one', 'skip')))))
        for _ in range(self.ch(0, 0, 1, 6)): self.op(S('do', S(self.ch('assertz', 'asserta'), self.clause())))
        for _ in range(self.r.randrange(1, n + 3)): self.op(A('retry'))
    def step(self):
        if self.bc and self.long and not self.init and self.p(.06): self.running(); return
        if self.init: self.op(self.init.pop()); return
        if self.pre > 0: self.pre -= 1; self.op(S('do', S('assertz', self.clause()))); return
        x = self.r.random(); live = self.e.live()
        if x < .30: self.op(S(self.ch('do', 'do', 'raw'), self.update()))
        elif x < .55: self.op(S('open', self.newid(), self.iter()))
        elif x < .82:
            if not live and self.p(.95): return
            for _ in range(min(max(1, live), self.ch(1, 1, 1, 2, 3))): self.op(A('retry'))
        elif x < .90:
            h = self.gen_head('d1' if self.p(.5) else 'd2')
            h = S(h.name, *[V(10 + i) for i in range(len(h.args))])
            self.op(S('do', S('findall', S('-', h, V(40)), S('clause', h, V(40)), V(41))))
        elif x < .95 and self.depth < 6:
            self.scope(self.ch(A('once'), A('call'), A('cut'), A('not'), A('ite'), A('softite'), S('catch', V(0)), S('catch', S('t', V(0))), S('findall', V(0), V(1)), S('forall', A('true'))))
        elif x < .975:
            if self.depth <= 0 and self.p(.9): return
            self.op(A('leave')); self.depth = max(0, self.depth - 1)
        elif self.p(.4): self.op(S('raw', S('throw', self.ch(A('x'), S('t', 1)))))
    def case(self):
        self.rules = self.ch(0, .1, .4); self.pre = self.ch(0, 3, 6, 10)
        self.big = self.p(.04); self.bc = not self.big and self.p(.4); self.mods = set(); self.long = self.bc
        if self.bc: self.pre = self.ch(0, 0, 2)
        if self.big: self.pre = 2
        self.init = [S('do', S('sim_fill', self.ch(5, 110, 300, 1100), A(self.ch('int', 'same', 'stc', 'lst', 'var', 'mix'))))] if self.big else [S('do', S('assertz', A('d0'))), S('do', S('assertz', S('e1', A('a'))))] if self.p(.8) else []
        if self.bc: self.init = [S('do', self.load())] + self.init[:1]
        self.grow(make, self.ch(8, 15, 30, 50))
        return {'seed': self.r.randrange(1 << 30), 'ops': self.ops, 'mods': sorted(self.mods)}
def gen(rng, i): return Gen(rng).case()
def excused(case): return nd.excused(case, make)
def judge(case, r, probes):
    try: nd.judge(case, r, probes, make, ID)
    except core.Viol as v:                   # the very history of the known finding
        if case.get('known') == v.key and 'observed (%d, %r)' % tuple(case['got']) in v.msg: raise core.Viol('reload_aux', v.msg)
        raise
def nontrivial(case, rs):
    t = [o.split(' ')[0] for o in case['ops']]
    return any(o.startswith('Sopen') for o in t) and 'Aretry' in t
