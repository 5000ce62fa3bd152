"""C11: exceptions, backtracking and cuts"""
import core, nd, plmodel
from core import A, S, V, G, C, T, enc, dec
from plmodel import deref, atom, mk, err, inst_error, type_error, St, Atom, Var
from nd import plan, reduce
ID = 'C11'
QUICK = 16000
THOROUGH = 300000
TWICE = 50
SHRINK = ('ops', 'faults')
RULE = 'a history in which a choice point was re-entered or a ball was caught'
REAL = ['the GNU Prolog engine (WAM, choice points, trail, catch/throw, call/N, compiled and interpreted control), built from the tree']
STUB = ['kernel replaced by sim/libsim.c (its failing opens raise some of the exceptions)', 'which choice point goes on, and where a ball is thrown, is taken by the plan']
PROBES = ['sol', 'exhausted', 'ok', 'ex', 'left', 'failed', 'caught', 'all', 'top_ex', 'open_failed']
ORACLE = 'an independent interpreter (harness/plmodel.py) of the driver program and of the goals of the plan'

class Eng(plmodel.Engine):
    def d_open(self, f):
        'x_open/1'
        f = deref(f)
        if f.name == '/w/none': raise err(mk('existence_error', atom('source_sink'), f))
        for b in self.bad:              # [how many opens this fault has seen, which one it makes fail]
            b[0] += 1
            if b[0] == b[1]: break
        else: return True
        self.failed += 1
        raise err(mk('permission_error', atom('open'), atom('source_sink'), f))
    def d_atom_length(self, a, n):
        'atom_length/2'
        a = deref(a); n = deref(n)
        if a.__class__ is Var: raise inst_error()
        if a.__class__ is not Atom: raise type_error('atom', a)
        if n.__class__ is not Var and n.__class__ is not int: raise type_error('integer', n)
        if n.__class__ is int and n < 0: raise err(mk('domain_error', atom('not_less_than_zero'), n))
        return self.unify(n, len(a.name))
    def d_arg(self, n, t, a):
        'arg/3'
        n = deref(n); t = deref(t)
        if n.__class__ is Var: raise inst_error()
        if n.__class__ is not int: raise type_error('integer', n)
        if n < 0: raise err(mk('domain_error', atom('not_less_than_zero'), n))
        if t.__class__ is Var: raise inst_error()
        if t.__class__ is not St: raise type_error('compound', t)
        return 1 <= n <= len(t.args) and self.unify(a, t.args[n - 1])
LIB = 'member(X, [X|_]).\nmember(X, [_|L]) :- member(X, L).\nappend([], L, L).\nappend([X|L1], L2, [X|L3]) :- append(L1, L2, L3).\n'
def make(bad=(), cls=None):
    e = plmodel.engine(cls or Eng, steps=30000); e.bad = [[0, k] for k in bad]; e.failed = 0
    e.static.pop(('x_open', 1), None)
    # nesting depth has no meaning for the result: the model takes the goal itself
    for k, t in ((('x_deep', 3), 'x_deep(N, G, Y) :- call(G), x_same(Y, Z).'), (('x_choice', 2), 'x_choice(N, G) :- call(G).'), (('x_catches', 2), 'x_catches(N, G) :- catch(G, x_none, true).')):
        c = plmodel.parse_program(t)[0]; e.static[k] = [plmodel.mkclause(*c.args)]
    for c in plmodel.parse_program(LIB):
        h, b = c.args if c.name == ':-' else (c, plmodel.TRUE)
        e.static.setdefault((h.name, len(h.args)), []).append(plmodel.mkclause(h, b))
    return e

NS = 8
class Gen(nd.Gen):
    def slot(self): return G(self.r.randrange(NS))
    def var(self): return self.slot() if self.p(.45) else V(self.r.randrange(5))
    def atomic(self): return self.ch(A('a'), A('b'), A('c'), 1, 2, 1.5, A('x y'), [])
    def val(self, d=0):
        x = self.r.random()
        if x < .40: return self.atomic()
        if x < .65 or d > 1: return self.var()
        if x < .80: return S(self.ch('f', 'f', 'g'), self.val(d + 1))
        if x < .86: return S('h', self.val(d + 1), self.val(d + 1))
        if x < .95: return [self.val(d + 1) for _ in range(self.r.randrange(1, 4))]
        return T([self.val(d + 1)], self.var())
    def ball(self): return self.ch(A('b1'), A('b2'), S('f', self.var()), S('f', A('a')), S('h', self.var(), self.var()), 5, self.val())
    def catcher(self):
        x = self.r.random()
        if x < .35: return V(self.r.randrange(6, 9))
        if x < .5: return S('error', S(self.ch('type_error', 'type_error', 'existence_error'), V(6), V(7)), V(8)) if self.p(.5) else S('error', V(6), V(8))
        return self.ball()
    def lst(self): return [self.val(1) for _ in range(self.r.randrange(0, 4))]
    def leaf(self):
        x = self.r.random()
        if x < .20: return S('=', self.var(), self.val())
        if x < .27: return S('sim_logt', S('l', self.var(), self.var()))
        if x < .33: return A('fail') if self.p(.6) else A('true')
        if x < .40: return A('!')
        if x < .47: return S('throw', self.ball())
        if x < .55: return S(self.ch('x_member', 'x_member', 'member'), self.var(), self.lst())
        if x < .61: return S(self.ch('x_append', 'append'), self.var(), self.var(), self.lst()) if self.p(.6) else S('x_append', self.lst(), self.var(), self.var())
        if x < .67: return S(self.ch('x_k', 'x_keep'), self.val(), self.var())
        if x < .71: return S('between', 1, self.ch(1, 2, 3), self.var())
        if x < .75: return S('d1', self.val())
        if x < .78: return S(self.ch('assertz', 'asserta'), S('d1', self.val())) if self.p(.6) else S('retract', S('d1', self.val()))
        if x < .81: return S('x_conj', self.var(), self.var())
        if x < .84: return S('x_open', A(self.ch('/w/f', '/w/f', '/w/none')))
        if x < .87: return S('is', self.var(), self.ch(S('+', self.var(), 1), S('//', 1, 0), S('+', A('foo'), 1), S('+', 1, 2)))
        if x < .90: return self.ch(S('atom_length', self.val(), self.var()), S('arg', self.ch(1, 2, self.var()), self.val(), self.var()), S('undefined', 1), S('functor', S('f', self.var()), self.var(), self.var()))
        if x < .92: return S('copy_term', self.val(), self.var())
        if x < .94: return S(self.ch('==', '\\==', '\\='), self.val(), self.val())
        if x < .96: return self.var()
        if x < .97: return 3
        return S('call', S('=', self.var()), self.val())
    def opaque(self, d):             # a goal a cut inside of which must stay inside
        if self.p(.6): return self.goal(d)
        c = [S(self.ch('x_member', 'member'), self.var(), [self.val(1) for _ in range(3)]), A('!')] if self.p(.6) else [self.goal(d + 1), A('!'), self.goal(d + 1)]
        if self.p(.3): c.append(self.goal(d + 1))
        if self.p(.2): c = [S(';', c[0], self.leaf())] + c[1:]
        t = c[-1]
        for y in reversed(c[:-1]): t = S(',', y, t)
        return t
    def goal(self, d=0):
        if d > 3 or self.p(.25 + .1 * d): return self.leaf()
        g = lambda: self.goal(d + 1)
        t = lambda: self.opaque(d + 1)
        x = self.r.random()
        if x < .24: return S(',', g(), g())
        if x < .36: return S(';', g(), g())
        if x < .42: return S(';', S('->', t(), g()), g())
        if x < .47: return S(';', S('*->', t(), g()), g())
        if x < .51: return S(self.ch('->', '*->'), t(), g())
        if x < .55: return S('\\+', t())
        if x < .60: return S('call', t())
        if x < .71: return S(self.ch('catch', 'x_catch'), g(), self.catcher(), g())
        if x < .74: return S(self.ch('once', 'x_cut'), g())
        if x < .77: return S('findall', self.val(), g(), self.var())
        if x < .79: return S('forall', g(), g())
        if x < .82: return S('x_ite', g(), g(), g())
        if x < .83: return S('x_soft', g(), g(), g())
        if x < .84: return S(self.ch('x_softcut', 'x_softcut', 'x_itecut'), S(self.ch('x_member', 'member'), self.var(), self.lst()) if self.p(.5) else g(), g(), g(), g())
        if x < .86: return S('x_or', g(), g())
        if x < .88: return S('x_not', g())
        if x < .91: return S('x_two', g(), self.val())
        if x < .94: return S('x_deep', self.ch(1, 5, 300, 3000), g(), self.var())
        if x < .97: return S('x_choice', self.ch(1, 5, 300, 3000), g())
        return S('x_catches', self.ch(1, 5, 60), g())
    def dump(self): self.op(S('do', S('sim_logt', S('st', *[G(i) for i in range(NS)]))))
    def step(self):
        if self.pre: self.pre -= 1; self.op(S('do', S('assertz', S('d1', self.val())))); return
        x = self.r.random(); live = self.e.live()
        if x < .10: self.op(S('do', self.goal()))
        elif x < .26: self.op(S('raw', self.goal()))
        elif x < .48: self.op(S('open', self.newid(), self.goal()))
        elif x < .66:
            if self.e.depth() < 2 and self.p(.9): return
            self.op(A('retry'))
            if self.p(.3): self.dump()
        elif x < .74: self.dump()
        elif x < .88 and self.depth < 8:
            self.scope(self.ch(A('once'), A('call'), A('cut'), A('not'), A('ite'), A('softite'), A('cwc'), S('catch', self.catcher()), S('catch', self.catcher()), S('catch', self.catcher()), S('catch', self.catcher()), S('findall', S('r', self.slot(), self.slot()), V(9)), S('findall', self.slot(), V(9), self.val()),
                S('forall', self.leaf())))
        elif x < .94:
            if self.depth <= 0 and self.p(.95): return
            self.op(A('leave')); self.depth -= 1
            if self.p(.3): self.dump()
        else:
            self.op(S('raw', S('throw', self.ball())))
            if self.p(.5): self.dump()
    def case(self): return self.case0(make)
    def case0(self, make):
        self.yx = self.p(.35); self.pre = self.ch(0, 2, 3)
        bad = sorted(set(self.r.randrange(1, 12) for _ in range(self.ch(0, 1, 3, 6))))
        mkb = lambda: make(bad)
        self.grow(mkb, self.ch(6, 12, 25, 50))
        return {'seed': self.r.randrange(1 << 30), 'ops': self.ops, 'files': [['/w/f', 'x.']], 'faults': [['open', '/w/f', k, 1, self.ch('EACCES', 'EMFILE', 'EIO')] for k in bad]}
def gen(rng, i): return Gen(rng).case()
def mk_(case): return lambda: make(bads(case))
def bads(case): return [f[2] for f in case['faults']]
def judge(case, r, probes):
    e = nd.judge(case, r, probes, mk_(case), ID)
    if e and e.failed: probes['open_failed'] = 1
def excused(case): return nd.excused(case, mk_(case))
def nontrivial(case, rs):
    t = [o.split(' ')[0] for o in case['ops']]
    return 'Aretry' in t or any(o.startswith('Sscope') for o in t)
