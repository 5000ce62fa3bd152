"""C14: findall, bagof, setof, forall: exact and re-entrant under aborts"""
import core, nd, plmodel, c11
from core import A, S, V, G, C, T, enc, dec
from nd import plan, reduce
from c11 import make, mk_, bads, NS
ID = 'C14'
QUICK = 16000
THOROUGH = 300000
TWICE = 50
SHRINK = ('ops', 'faults')
RULE = 'a history in which a collection was run, re-entered or abandoned while another was in progress'
REAL = ['the GNU Prolog engine and built-in library (solution store, free-variable analysis, grouping, sorting), built from the tree']
STUB = ['kernel replaced by sim/libsim.c (its failing opens abort some of the collections)', 'which choice point goes on, and where a ball is thrown, is taken by the plan']
PROBES = ['all', 'sol', 'exhausted', 'ok', 'ex', 'left', 'failed', 'caught', 'top_ex', 'forall_true', 'forall_false', 'open_failed']
ORACLE = 'an independent interpreter (harness/plmodel.py): a collection is a list of its own, groups are made of sorted (key, value) pairs'

class Gen(c11.Gen):
    def key(self): return self.ch(A('a'), A('b'), A('c'), 1, 2, S('f', A('a')), S('f', self.var()), self.var(), A('a'), A('b'), [A('a')], 1.0)
    def fact(self): return S('d2', self.key(), self.val(1))
    def v(self): return V(self.r.randrange(6)) if self.p(.85) else self.slot()
    def templ(self):
        x = self.r.random()
        if x < .45: return self.v()
        if x < .75: return S('-', self.v(), self.v())
        return self.val()
    def result(self):
        x = self.r.random()
        if x < .85: return self.var()
        if x < .91: return T([self.val(1)], self.var())
        if x < .97: return [self.val(1) for _ in range(self.r.randrange(0, 3))]
        return self.ch(A('c'), T([self.val(1)], A('d')), 5)
    def qual(self, g):
        for _ in range(self.ch(0, 0, 1, 1, 2)): g = S('^', self.ch(self.v(), self.v(), self.val()), g)
        return g
    def leaf(self):
        x = self.r.random()
        if x < .30: return S('d2', self.ch(self.v(), self.v(), self.key()), self.ch(self.v(), self.v(), self.val()))
        if x < .40: return S('member', self.v(), self.lst())
        if x < .45: return S('between', 1, self.ch(1, 2, 3), self.v())
        if x < .53: return S('throw', self.ball())
        if x < .56: return S('member', S('-', self.v(), self.v()), [S('-', self.key(), self.val(1)) for _ in range(self.r.randrange(1, 5))])
        return super().leaf()
    def nv(self): self.nvar = (self.nvar + 1) % 14; return V(10 + self.nvar)
    nvar = 0
    def gval(self): return self.ch(A('a'), A('b'), A('c'), 1, 2, S('f', A('a')), [A('b')], S('f', V(10 + self.r.randrange(14))))
    def prod(self, d):
        """a goal with several solutions, and the variables it binds"""
        vs = []; gs = []
        for _ in range(self.ch(1, 1, 2, 2, 3)):
            v = self.nv(); w = self.nv(); x = self.r.random(); vs.append(v)
            if x < .35: gs.append(S('member', v, [self.gval() for _ in range(self.r.randrange(1, 5))]))
            elif x < .55: gs.append(S('member', S('-', w, v), [S('-', self.ch(A('a'), A('b'), 1, self.gval()), self.gval()) for _ in range(self.r.randrange(2, 6))])); vs.append(w)
            elif x < .75: gs.append(S('d2', w, v)); vs.append(w)
            elif x < .85: gs.append(S('between', 1, self.ch(2, 3, 4), v))
            elif d < 3: gs.append(self.pcol(d + 1, v)); vs.append(w)
            else: gs.append(S('=', v, self.gval()))
            y = self.r.random()
            if y < .18: gs.append(S(';', S('->', S('==', v, self.gval()), S('throw', self.ch(A('b1'), S('f', v)))), A('true')))
            elif y < .24: gs.append(S('\\==', v, self.gval()))
            elif y < .30: gs.append(S('sim_logt', S('l', v, w)))
            elif y < .34: gs.append(S('x_open', A('/w/f')))
            elif y < .37: gs.append(A('!'))
            elif y < .40: gs.append(S('is', w, S('+', v, 1)))
        g = gs[-1]
        for x in reversed(gs[:-1]): g = S(',', x, g)
        return g, vs
    def pcol(self, d, out):
        g, vs = self.prod(d)
        if self.p(.3): g = S(self.ch('x_safe', 'x_safe', 'call', 'once'), g)
        t = self.ch(*vs) if self.p(.6) else S('-', self.ch(*vs), self.ch(*vs))
        x = self.r.random()
        if x < .3: c = S('findall', t, g, out)
        elif x < .36: c = S('findall', t, g, out, self.ch([], self.nv()))
        elif x < .6: c = S('bagof', t, self.pqual(g, vs), out)
        elif x < .84: c = S('setof', t, self.pqual(g, vs), out)
        elif x < .88: c = S('x_nest', self.ch(1, 2), t, g, out)
        elif x < .92: c = S('countall', g, out)
        elif x < .96: c = S('call_nth', g, out)
        else: c = S('forall', g, S('\\==', t, self.gval()))
        return S('x_safe', c) if self.p(.35) else S('catch', c, self.ch(A('b1'), S('f', self.nv()), self.nv()), self.ch(A('true'), S('=', out, A('caught')), A('fail'))) if self.p(.1) else c
    def pqual(self, g, vs):
        for v in vs:
            if self.p(.4): g = S('^', v, g)
        return g
    def collect(self, d):
        if self.p(.6): return self.pcol(d, self.nv() if self.p(.7) else self.result())
        g = lambda: self.goal(d + 1)
        x = self.r.random()
        if x < .20: return S('findall', self.templ(), g(), self.result())
        if x < .26: return S('findall', self.templ(), g(), self.result(), self.result())
        if x < .48: return S('bagof', self.templ(), self.qual(g()), self.result())
        if x < .70: return S('setof', self.templ(), self.qual(g()), self.result())
        if x < .76: return S('forall', g(), g())
        if x < .80: return S('countall', g(), self.ch(self.var(), self.var(), 2))
        if x < .84: return S('x_all', self.templ(), g(), self.result())
        if x < .88: return S('x_group', self.v(), self.templ(), g(), self.result())
        if x < .92: return S('x_nest', self.ch(1, 2, 3), self.templ(), g(), self.result())
        if x < .95: return S('findall', self.templ(), self.collect(d + 1), self.result())
        return self.ch(lambda: S('setof', S('-', self.v(), self.v()), S('bagof', self.templ(), self.qual(g()), self.v()), self.result()), lambda: S('findall', self.v(), S('x_safe', self.collect(d + 1)), self.result()))() if d < 3 else S('findall', self.templ(), g(), self.result())
    def goal(self, d=0):
        if d < 4 and self.p(.30): return self.collect(d)
        if d < 4 and self.p(.08): return S('x_safe', self.goal(d + 1))
        return super().goal(d)
    def scopes(self):
        return self.ch(S('findall', self.templ(), V(9)), S('findall', self.templ(), V(9)), S('findall', S('r', self.slot(), self.slot()), V(9)), S('findall', self.slot(), V(9), self.ch(V(10), V(10), [], self.val())),
            S('bagof', S('r', self.slot(), self.slot()), V(9)), S('setof', S('r', self.slot(), self.slot()), V(9)), S('bagof', self.slot(), V(9)), S('setof', self.templ(), V(9)),
            S('forall', self.leaf()), A('not'), A('once'), A('call'), A('softite'), S('catch', self.catcher()), S('catch', self.catcher()), S('catch', V(6)))
    def step(self):
        if self.pre: self.pre -= 1; self.op(S('do', S('assertz', self.fact()))); return
        x = self.r.random()
        if x < .22: self.op(S('do', self.collect(0)))
        elif x < .36: self.op(S('raw', self.collect(0)))
        elif x < .50: self.op(S('open', self.newid(), self.collect(0)))
        elif x < .58: self.op(S('open', self.newid(), self.leaf()))
        elif x < .72:
            if self.e.depth() < 2 and self.p(.9): return
            for _ in range(self.ch(1, 1, 2)): self.op(A('retry'))
        elif x < .75: self.dump()
        elif x < .88 and self.depth < 8: self.scope(self.scopes())
        elif x < .96:
            if self.depth <= 0 and self.p(.95): return
            self.op(A('leave')); self.depth -= 1
        else: self.op(S('raw', S('throw', self.ball())))
    def case(self):
        self.yx = self.p(.35)
        self.pre = self.ch(0, 2, 4, 8)
        bad = sorted(set(self.r.randrange(1, 12) for _ in range(self.ch(0, 1, 3))))
        self.grow(lambda: make(bad), self.ch(6, 12, 25))
        return {'seed': self.r.randrange(1 << 30), 'ops': self.ops, 'files': [['/w/f', 'x.']], 'faults': [['open', '/w/f', k, 1, self.ch('EACCES', 'EMFILE', 'EIO')] for k in bad]}
def gen(rng, i): return Gen(rng).case()
def judge(case, r, probes):
    e = nd.judge(case, r, probes, mk_(case), ID)
    if e and e.failed: probes['open_failed'] = 1
def excused(case): return nd.excused(case, mk_(case))
COLL = ('Sfindall', 'Sbagof', 'Ssetof', 'Sforall', 'Sx_all', 'Sx_group', 'Sx_nest', 'Scountall')
def nontrivial(case, rs):
    t = ' '.join(case['ops'])
    return sum(t.count(c) for c in COLL) > 1
