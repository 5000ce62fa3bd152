"""C17: whatever the order of posting, branching and backtracking, the constraint store means the set of assignments that satisfy it"""
import itertools
import core
from core import A, S, V, G, T, enc, dec, Viol
ID = 'C17'
QUICK = 24000
THOROUGH = 200000
TWICE = 40
SHRINK = ('ops', 'faults')
RULE = 'a history in which a labelling or choice point was re-entered, left or committed to after constraints had been posted inside of it'
REAL = ['the finite domain solver (EngineFD), its constraints (BipsFD, including the .fd definitions compiled by fd2c) and the engine, built from the tree']
STUB = ['kernel replaced by sim/libsim.c', 'which choice point goes on, and when, is taken by the plan']
PROBES = ['posted', 'refused', 'incomplete', 'sol', 'exhausted', 'left', 'commit', 'thrown', 'error', 'all', 'optimum', 'none', 'order', 'hole', 'clash', 'ground', 'restored', 'narrowed',
          'c_lin', 'c_nonlin', 'c_full', 'c_bool', 'c_reif', 'c_card', 'c_rel', 'c_elem', 'c_count', 'c_diff', 'c_dom', 'c_unify', 'c_prime']
ORACLE = 'the explicit set of assignments that satisfy the constraints posted so far (enumerated by the harness, filtered constraint by constraint)'
FULL = {'#=#': '==', '#\\=#': '!=', '#<#': '<', '#=<#': '<=', '#>#': '>', '#>=#': '>='}
PART = {'#=': '==', '#\\=': '!=', '#<': '<', '#=<': '<=', '#>': '>', '#>=': '>='}
CMP = dict(FULL, **PART)
BOOL = {'#<=>': '({}=={})', '#\\<=>': '({}!={})', '##': '({}!={})', '#==>': '({}<={})', '#\\==>': '({}>{})', '#/\\': '({}&{})', '#\\/\\': '(1-({}&{}))', '#\\/': '({}|{})', '#\\\\/': '(1-({}|{}))'}

class No(Exception): pass
def quo(a, b):
    if b == 0: raise No
    return a // b
def rm(a, b):
    if b == 0: raise No
    return a % b
def exact(a, b):
    if b == 0 or a % b: raise No
    return a // b
def prime(n): return n > 1 and all(n % d for d in range(2, int(n ** .5) + 1))
def b01(x):
    if x not in (0, 1): raise No
    return x
def nth(l, i):
    if not 1 <= i <= len(l): raise No
    return l[i - 1]
GL = dict(quo=quo, rm=rm, exact=exact, prime=prime, b01=b01, nth=nth, dist=lambda a, b: abs(a - b), No=No, min=min, max=max, sum=sum, len=len, set=set, abs=abs)
def ex(t):
    """an arithmetic expression as Python text"""
    if isinstance(t, int): return '(%d)' % t
    if isinstance(t, G): return 'x[%d]' % t.n
    n = t.name; a = [ex(x) for x in t.args]
    if len(a) == 1: return '(%s%s)' % (n, a[0])
    if n in ('+', '-', '*', '**'): return '(%s%s%s)' % (a[0], n, a[1])
    if n == 'quot_rem': return '(0 if rm(%s,%s)!=%s and no() else quo(%s,%s))' % (a[0], a[1], a[2], a[0], a[1])
    return '%s(%s,%s)' % ({'//': 'quo', 'rem': 'rm', '/': 'exact'}.get(n, n), a[0], a[1])
def no(): raise No
GL['no'] = no
def bx(t):
    """a boolean expression as Python text"""
    if isinstance(t, int): return '%d' % t
    if isinstance(t, G): return 'b01(x[%d])' % t.n
    n = t.name
    if n == '#\\': return '(1-%s)' % bx(t.args[0])
    if n in BOOL: return BOOL[n].format(bx(t.args[0]), bx(t.args[1]))
    return '(1 if %s%s%s else 0)' % (ex(t.args[0]), CMP[n], ex(t.args[1]))
def lst(l): return '(%s,)' % ','.join(ex(x) for x in l) if l else '()'
def src(t):
    """the condition a constraint stands for, as Python text over the assignment x"""
    if t == A('true'): return 'True'
    if t == A('fail'): return 'False'
    n = t.name; a = t.args
    if n == ',': return '(%s and %s)' % (src(a[0]), src(a[1]))
    if n in CMP: return '%s%s%s' % (ex(a[0]), CMP[n], ex(a[1]))
    if n in BOOL or n == '#\\': return '%s==1' % bx(t)
    if n == 'fd_domain' and len(a) == 3: return ' and '.join('%d<=%s<=%d' % (a[1], ex(v), a[2]) for v in (a[0] if isinstance(a[0], list) else [a[0]])) or 'True'
    if n == 'fd_domain': return ' and '.join('%s in %s' % (ex(v), lst(a[1])) for v in (a[0] if isinstance(a[0], list) else [a[0]])) or 'True'
    if n == 'fd_domain_bool': return ' and '.join('%s in (0,1)' % ex(v) for v in (a[0] if isinstance(a[0], list) else [a[0]])) or 'True'
    if n == 'fd_all_different': return 'len(set(%s))==%d' % (lst(a[0]), len(a[0]))
    if n in ('fd_element', 'fd_element_var'): return 'nth(%s,%s)==%s' % (lst(a[1]), ex(a[0]), ex(a[2]))
    if n in ('fd_atmost', 'fd_atleast', 'fd_exactly'): return '%s.count(%d)%s%d' % (lst(a[1]), a[2], {'fd_atmost': '<=', 'fd_atleast': '>=', 'fd_exactly': '=='}[n], a[0])
    if n == 'fd_relation': return '%s in %s' % (lst(a[1]), '(%s)' % ''.join(lst(r) + ',' for r in a[0]))
    if n == 'fd_relationc': return '%s in %s' % (lst(a[1]), '(%s)' % ''.join(lst(r) + ',' for r in zip(*a[0])))
    if n == 'fd_cardinality' and len(a) == 2: return '(%s)==%s' % ('+'.join(map(bx, a[0])) or '0', ex(a[1]))
    if n == 'fd_cardinality': return '%d<=(%s)<=%d' % (a[0], '+'.join(map(bx, a[1])) or '0', a[2])
    if n in ('fd_at_least_one', 'fd_at_most_one', 'fd_only_one'): return '(%s)%s1' % ('+'.join(map(bx, a[0])) or '0', {'fd_at_least_one': '>=', 'fd_at_most_one': '<=', 'fd_only_one': '=='}[n])
    if n == 'fd_prime': return 'prime(%s)' % ex(a[0])
    if n == 'fd_not_prime': return 'not prime(%s)' % ex(a[0])
    if n == 'fd_reified_in': return 'b01(%s)==(1 if %d<=%s<=%d else 0)' % (ex(a[3]), a[1], ex(a[0]), a[2])
    if n == 'fd_use_vector': return 'True'
    if n == '=': return eqs(a[0], a[1])
    raise ValueError(t)
def eqs(l, r):
    if isinstance(l, list) or isinstance(l, S):
        l = l if isinstance(l, list) else list(l.args); r = r if isinstance(r, list) else list(r.args) if isinstance(r, S) else None
        if r is None or len(l) != len(r): return 'False'
        return ' and '.join(eqs(p, q) for p, q in zip(l, r)) or 'True'
    if not isinstance(r, (int, G)) or isinstance(r, A): return 'False'
    return '%s==%s' % (ex(l), ex(r))
_cache = {}
def pred(t):
    k = repr(t); f = _cache.get(k)
    if f is None:
        if len(_cache) > 4000: _cache.clear()
        f = _cache[k] = eval('lambda x: ' + src(t), GL)
    return f
def filt(sols, t):
    f = pred(t); out = []
    for x in sols:
        try:
            if f(x): out.append(x)
        except No: pass
    return out
def start(case): return [tuple(x) for x in itertools.product(*case['doms'])]

def declare(d):
    return lambda i: S('fd_domain', G(i), d[0], d[-1]) if d == list(range(d[0], d[-1] + 1)) else S('fd_domain', G(i), list(d))
def conj(l):
    t = l[-1]
    for x in reversed(l[:-1]): t = S(',', x, t)
    return t
def plan(case):
    L = ['seed %d' % case['seed'], 'bg 0', 'dir /w 777', 'maxsteps 400000', 'std 0 null', 'std 1 file /w/stdout', 'std 2 file /w/stderr']
    first = conj([S('fd_set_vector_max', case['vm'])] + [declare(d)(i) for i, d in enumerate(case['doms'])])
    for t in [first] + [term(o, case) for o in case['ops']]: L.append('op ' + enc(t))
    return ('fd', ['fd'], '\n'.join(L) + '\n', {})

def allv(case): return [G(i) for i in range(len(case['doms']))]
def term(o, case):
    k = o['k']; vs = allv(case)
    if k == 'post': return dec(o['c'])
    if k == 'not': return S('\\+', dec(o['c']))
    if k == 'thrown': return S(',', dec(o['c']), S('throw', A('b')))
    if k == 'bad': return dec(o['c'])
    if k == 'all': return S('findall', vs, S(',', dec(o['c']), S('fd_labeling', vs, dec(o['o']))), V(0))
    if k == 'opt': return S(o['f'], S('fd_labeling', vs, dec(o['o'])), G(o['v']))
    if k == 'label': return S('open', o['id'], S(',', S('fd_labeling', [G(v) for v in o['vs']], dec(o['o'])), S('=', V(0), A('l'))))
    if k == 'alt':
        t = None
        for i, c in reversed(list(enumerate(o['cs']))):
            b = S(',', dec(c), S('=', V(0), i)); t = b if t is None else S(';', b, t)
        return S('open', o['id'], t)
    return A(k)                        # retry, leave, commit

class St:
    def __init__(self, sols, doms): self.sols = sols; self.doms = doms
def domlists(ds, n):
    out = []
    for d in ds[:n]:
        if not isinstance(d, S): return None
        out.append(d.args[0])
    return out
def lead(o, case):
    """sort key of the order in which the solutions of a labelling have to come, None if it is open"""
    vm = wm = None
    for p in dec(o['o']):
        if p.name == 'variable_method': vm = str(p.args[0])
        if p.name == 'value_method': wm = str(p.args[0])
    if vm not in (None, 'standard'): return None
    return 1 if wm in (None, 'min', 'bisect') else -1 if wm == 'max' else None
def cls(t):
    if not isinstance(t, S): return None
    n = t.name
    if n == ',': return cls(t.args[0])
    if n in FULL: return 'c_full'
    if n in PART: return 'c_nonlin' if any(w in repr(t) for w in ('*(_', '**(', 'min(', 'max(', 'dist(', '//(', 'rem(', '/(')) else 'c_lin'
    if n in BOOL or n == '#\\': return 'c_reif' if any(c in repr(t) for c in CMP) else 'c_bool'
    if n in ('fd_cardinality', 'fd_at_least_one', 'fd_at_most_one', 'fd_only_one'): return 'c_card'
    return {'fd_relation': 'c_rel', 'fd_relationc': 'c_rel', 'fd_element': 'c_elem', 'fd_element_var': 'c_elem', 'fd_atmost': 'c_count', 'fd_atleast': 'c_count', 'fd_exactly': 'c_count', 'fd_all_different': 'c_diff',
            'fd_domain': 'c_dom', 'fd_domain_bool': 'c_dom', '=': 'c_unify', 'fd_prime': 'c_prime', 'fd_not_prime': 'c_prime', 'fd_reified_in': 'c_reif'}.get(n)

def judge(case, r, probes):
    def hit(k):
        if k: probes[k] = probes.get(k, 0) + 1
    n = len(case['doms']); ops = case['ops']; per = r.per_op()
    def bad(i, key, msg):
        raise Viol(key, 'operation %d (%s): %s' % (i, {k: (repr(dec(v)) if k in ('c', 'o') else [repr(dec(c)) for c in v] if k == 'cs' else v) for k, v in ops[i].items()} if i >= 0 else 'the domains', msg))
    cur = St(start(case), None); stack = []        # frames: dict(base, op, seen, inner state)
    def proj(s): return [set(x[j] for x in s) for j in range(n)]
    def check_doms(i, ds, old, sols):
        """sound: every value of a solution is there; monotone: nothing reappears"""
        ls = domlists(ds, n)
        if ls is None: bad(i, 'domain', 'a variable is no longer one of a finite domain: %s' % ds)
        for j, d in enumerate(ds[:n]):
            l, size, lo, hi = d.args
            if not l or l != sorted(set(l)) or size != len(l) or lo != l[0] or hi != l[-1]: bad(i, 'domain', 'fd_dom, fd_size, fd_min and fd_max of variable %d disagree: %s' % (j, d))
            if old is not None and not set(l) <= set(old[j]): bad(i, 'reappeared', 'values %s of variable %d had been removed before' % (sorted(set(l) - set(old[j])), j))
            if l != list(range(l[0], l[-1] + 1)): hit('hole')
        for j, p in enumerate(proj(sols)):
            if not p <= set(ls[j]): bad(i, 'lost', 'values %s of variable %d belong to a solution (%s) but are gone: %s' % (sorted(p - set(ls[j])), j, next(x for x in sols if x[j] not in ls[j]), ls[j]))
        if old is not None and ls != old: hit('narrowed')
        if sols == [] and all(len(l) == 1 for l in ls) : bad(i, 'wrong', 'the assignment %s is not a solution' % [l[0] for l in ls])
        return ls
    def same(i, ds):
        ls = domlists(ds, n)
        if ls != cur.doms: bad(i, 'restore', 'the domains were %s and are now %s' % (cur.doms, ls))
        hit('restored')
    def order(i, o, got, sols, vs):
        if len(set(got)) != len(got): bad(i, 'twice', 'a solution is given twice: %s' % got)
        w = [t for t in got if t not in set(sols)]; m = [t for t in sols if t not in set(got)]
        if w: bad(i, 'wrong', 'the assignment %s is not a solution' % (w[0],))
        if m: bad(i, 'missing', 'the labelling ended without %s' % m[:3])
        d = lead(o, case)
        if d:
            if got != sorted(sols, reverse=d < 0): bad(i, 'order', 'the solutions come in another order: %s' % got)
            hit('order')
    def notbool(x, sols):
        """a variable in a boolean expression is bound to another integer by now"""
        return not sols and isinstance(x, S) and x.name == 'ex' and repr(x.args[0]).startswith("error(type_error(A('fd_bool_evaluable'),")
    if r.status != 0 and not per: raise Viol('crash', 'the process ended with %s (%s)' % (r.status, r.end()))
    for oi, (_, head, logs, lines) in enumerate(per):
        i = oi - 1
        if logs and logs[-1] == A('end'): logs = logs[:-1]
        if i >= len(ops): break
        if any(not (isinstance(l, S) and l.name == 'o') for l in logs): raise Viol('driver', 'operation %d: unexpected %s' % (i, logs))
        if i < 0:
            if len(logs) != 1 or logs[0].args[0].name != 'ok': bad(i, 'domain', 'fd_domain refused: %s' % logs)
            cur.doms = check_doms(i, logs[0].args[1], None, cur.sols)
            if cur.doms != [list(d) for d in case['doms']]: bad(i, 'domain', 'declared %s, found %s' % (case['doms'], cur.doms))
            continue
        o = ops[i]; k = o['k']; idx = 0
        def take():
            nonlocal idx
            if idx >= len(logs): 
                raise Viol('crash' if r.status else 'log', 'operation %d (%s) gave no answer; the process ended with %s (%s) %s' % (i, repr(term(o, case)), r.status, r.end(), r.stray[-200:]))
            idx += 1; return logs[idx - 1].args
        if k in ('post', 'not', 'thrown', 'bad', 'all', 'opt'):
            x, ds = take(); ans = str(x) if isinstance(x, A) else x.name
            if k == 'post':
                c = dec(o['c']); s2 = filt(cur.sols, c); hit(cls(c))
                if ans == 'ok': cur = St(s2, check_doms(i, ds, cur.doms, s2)); hit('posted' if s2 else 'incomplete')
                elif ans == 'fail':
                    if s2: bad(i, 'refused', 'fails but %s is a solution' % (s2[0],))
                    same(i, ds); hit('refused')
                elif notbool(x, s2): same(i, ds); hit('refused')      # a variable bound to another integer
                else: bad(i, 'error', 'raised %s' % (x,))
            elif k == 'not':
                s2 = filt(cur.sols, dec(o['c']))
                if ans == 'ok':
                    if s2: bad(i, 'refused', 'its constraint fails but %s is a solution' % (s2[0],))
                elif ans != 'fail' and not notbool(x, s2): bad(i, 'error', 'raised %s' % (x,))
                same(i, ds)
            elif k == 'thrown':
                s2 = filt(cur.sols, dec(o['c']))
                if ans == 'ex':
                    if x.args[0] != A('b') and not notbool(x, s2): bad(i, 'error', 'raised %s' % (x,))
                elif ans != 'fail' or s2: bad(i, 'refused', 'answers %s but %s' % (x, s2[:1]))
                same(i, ds); hit('thrown')
            elif k == 'bad':
                e = x.args[0] if ans == 'ex' else None
                if not (isinstance(e, S) and e.name == 'error' and repr(e.args[0]) in [repr(dec(y)) for y in o['e']]) and repr(x) not in o['e']: bad(i, 'error', 'expected %s, got %s' % ([repr(dec(y)) for y in o['e']], x))
                same(i, ds); hit('error')
            elif k == 'all':
                s2 = filt(cur.sols, dec(o['c']))
                if notbool(x, s2): same(i, ds); continue
                if ans != 'ok': bad(i, 'all', 'answers %s' % (x,))
                got = [tuple(y) for y in x.args[0][0]]
                order(i, o, got, s2, list(range(n)))
                same(i, ds); hit('all')
            else:
                if not cur.sols:
                    if ans != 'fail': bad(i, 'optimum', 'there is no solution, the answer is %s' % (x,))
                    same(i, ds)
                elif ans != 'ok': bad(i, 'optimum', 'answers %s but %s is a solution' % (x, cur.sols[0]))
                else:
                    v = o['v']; f = min if o['f'] == 'fd_minimize' else max; best = f(y[v] for y in cur.sols); s2 = [y for y in cur.sols if y[v] == best]
                    ls = check_doms(i, ds, cur.doms, []) if not any(len(d.args[0]) == 1 for d in ds[:n]) else domlists(ds, n)
                    t = tuple(l[0] for l in ls)
                    if any(len(l) != 1 for l in ls) or t not in s2: bad(i, 'optimum', '%s is not a solution with the best value %d' % (ls, best))
                    cur = St([t], ls); hit('optimum')
        else:
            if k in ('label', 'alt'): stack.append(dict(base=cur, op=o, seen=[], at=i, next=0)); resumed = True
            elif not stack:
                x, ds = take(); resumed = False
                if x != A('noop'): bad(i, 'resumed', 'a choice point is open that should not be: %s' % (x,))
                same(i, ds)
            elif k == 'retry': cur = None; resumed = True
            elif k in ('leave', 'commit'):
                f = stack.pop(); x, ds = take()
                if not (isinstance(x, S) and x.args[0] == A(k)): bad(i, 'left', 'answers %s' % (x,))
                if k == 'leave': cur = f['base']; same(i, ds); hit('left')
                else: same(i, ds); hit('commit')
                resumed = False
            while resumed:
                f = stack[-1]; x, ds = take(); a0 = x.args[0]; fo = f['op']
                if x.args[1] != fo['id']: bad(i, 'resumed', 'resumes %s, not the choice point %s' % (x, fo['id']))
                if isinstance(a0, A) and str(a0) == 'exhausted':
                    stack.pop(); cur = f['base']; same(i, ds); hit('exhausted')
                    if fo['k'] == 'label':
                        exp = set(tuple(y[v] for v in fo['vs']) for y in cur.sols); miss = exp - set(f['seen'])
                        if miss: bad(f['at'], 'missing', 'the labelling ended without %s' % sorted(miss)[:3])
                    else:
                        for j in range(f['next'], len(fo['cs'])):
                            s2 = filt(cur.sols, dec(fo['cs'][j]))
                            if s2: bad(f['at'], 'missing', 'alternative %d was not given but %s is a solution' % (j, s2[0]))
                    break
                if fo['k'] == 'alt' and isinstance(a0, S) and a0.name == 'ex' and notbool(a0, []):      # an alternative met a variable bound to another integer: the choice point is gone
                    f['next'] = 99; continue
                if not (isinstance(a0, S) and a0.name == 'sol'): bad(f['at'], 'error', 'raised %s' % (a0,))
                base = f['base']; hit('sol')
                if fo['k'] == 'label':
                    vs = fo['vs']; ls = domlists(ds, n)
                    if ls is None or any(len(ls[v]) != 1 for v in vs): bad(f['at'], 'label', 'after the labelling of %s the domains are %s' % (vs, ls))
                    t = tuple(ls[v][0] for v in vs)
                    if t in f['seen']: bad(f['at'], 'twice', 'the solution %s is given again' % (t,))
                    f['seen'].append(t); s2 = [y for y in base.sols if all(y[v] == w for v, w in zip(vs, t))]
                    if set(vs) >= set(range(n)) and not s2: bad(f['at'], 'wrong', 'the assignment %s is not a solution' % (t,))
                    d = lead(fo, case)
                    if d:
                        sk = lambda t: tuple(d * y for y in t)
                        if len(f['seen']) > 1 and sk(f['seen'][-2]) > sk(t): bad(f['at'], 'order', '%s comes after %s' % (t, f['seen'][-2]))
                        skipped = [u for u in set(tuple(y[v] for v in vs) for y in base.sols) if sk(u) < sk(t) and u not in f['seen']]
                        if skipped: bad(f['at'], 'missing', 'the labelling skipped %s' % (min(skipped, key=sk),))
                        hit('order')
                else:
                    j = x_alt(x)
                    if not isinstance(j, int) or j < f['next']: bad(f['at'], 'alternative', 'gives alternative %s after %d' % (j, f['next'] - 1))
                    for j2 in range(f['next'], j):
                        s2 = filt(base.sols, dec(fo['cs'][j2]))
                        if s2: bad(f['at'], 'missing', 'alternative %d was not given but %s is a solution' % (j2, s2[0]))
                    f['next'] = j + 1; s2 = filt(base.sols, dec(fo['cs'][j]))
                cur = St(s2, check_doms(i, ds, base.doms, s2)); break
        if idx != len(logs): bad(i, 'log', 'more answers than expected: %s' % logs)
        if cur.doms and all(len(l) == 1 for l in cur.doms): hit('ground')
    if len(per) != len(ops) + 1: raise Viol('crash', 'the process ended with %s (%s) after operation %d of %d: %s' % (r.status, r.end(), len(per) - 2, len(ops), r.stray[-200:]))
    if r.status != 0: raise Viol('crash', 'the process ended with %s (%s)' % (r.status, r.end()))
def x_alt(x):
    vs = x.args[0].args[0]
    return vs[0] if isinstance(vs, list) and vs else None

# ---------------------------------------------------------------- generation
VMETH = ('standard', 'first_fail', 'ff', 'most_constrained', 'smallest', 'largest', 'max_regret', 'random')
WMETH = ('min', 'max', 'middle', 'bounds', 'random', 'bisect')
def r2(r, l): return r.sample(l, 2)
class Gen:
    def __init__(self, r, n, doms, vm): self.r = r; self.n = n; self.doms = doms; self.vm = vm; self.lim = max(max(d) for d in doms)
    def v(self): return G(self.r.randrange(self.n))
    def k(self): return self.r.choice((0, 1, 1, 2, 3, 4, self.r.randrange(self.lim + 1), self.r.randrange(self.lim + 3)))
    def bool(self): 
        c = [i for i in range(self.n) if self.doms[i][0] <= 1 and self.doms[i][-1] <= 3 or self.r.random() < .1]
        return G(self.r.choice(c)) if c else self.v()
    def pos(self, d=0, flat=False):
        """an expression that is never negative (flat: without products -- a product of variables has no domain
        yet when the linear part is posted, and c * fd_max_integer overflows in silence: documented, fd-cstr.tex)"""
        x = self.r.random()
        if x < .6 or d > 1: return self.v()
        if x < .68: return self.k()
        if flat: return S('+', *r2(self.r, [self.v(), self.k()]))
        if x < .82: return S('+', self.pos(d + 1), self.pos(d + 1))
        if x < .92: return S('*', self.r.randrange(1, 4), self.v())
        return S('*', self.v(), self.v())
    def lin(self, d=0):
        r = self.r; x = r.random()
        if x < .4 or d > 2: return self.v()
        if x < .5: return self.k()
        if x < .68: return S('+', self.lin(d + 1), self.lin(d + 1))
        if x < .84: return S('-', self.lin(d + 1), self.lin(d + 1))
        if x < .95: return S('*', *r.sample([r.randrange(0, 5), self.v()], 2))
        return S(r.choice('+-'), self.lin(d + 1))
    def nonlin(self):
        r = self.r; x = r.random()
        if x < .25: return S('*', self.pos(1, True), self.pos(1, True))
        if x < .32: return S('**', self.pos(2), r.choice((0, 1, 2, 2, 2, 3)))
        if x < .37: return S('**', r.choice((0, 1, 2, 2, 3)), self.v())
        if x < .64: return S(r.choice(('min', 'max', 'dist')), self.pos(1), self.pos(1))
        if x < .92: return S(r.choice(('//', 'rem', '/', '//', 'rem')), self.pos(1), self.pos(1) if r.random() < .6 else r.randrange(0, 6))
        return S('quot_rem', self.pos(1), self.pos(2), self.v())
    def expr(self):
        x = self.r.random()
        if x < .55: return self.lin()
        if x < .85: return self.nonlin()
        return S('+', self.nonlin(), self.lin(1))
    def arith(self, reif=False):
        r = self.r; op = r.choice(list(PART)) if r.random() < .75 else r.choice(list(FULL))
        if reif: a, b = (self.lin(1) if r.random() < .8 else S('*', self.v(), self.v()) if r.random() < .5 else S(r.choice(('min', 'max', 'dist')), self.v(), self.v())), self.lin(1)
        else: a, b = self.expr(), self.expr() if r.random() < .5 else self.lin(1)
        if r.random() < .3: a, b = b, a
        return S(op, a, b)
    def boolx(self, d=0):
        r = self.r; x = r.random()
        if x < .3 or d > 2: return self.bool() if r.random() < .9 else r.randrange(2)
        if x < .55: return self.arith(True)
        if x < .65: return S('#\\', self.boolx(d + 1))
        return S(r.choice(list(BOOL)), self.boolx(d + 1), self.boolx(d + 1))
    def vars(self, lo=0, hi=None):
        n = self.r.randrange(lo, (hi or self.n + 1) + 1); l = [self.v() if self.r.random() < .93 else self.k() for _ in range(n)]
        return l
    def distinct(self, lo=1): return [G(i) for i in self.r.sample(range(self.n), self.r.randrange(min(lo, self.n), self.n + 1))]
    def one(self):
        r = self.r; x = r.random()
        if x < .38: return self.arith()
        if x < .56: 
            while True:
                t = self.boolx()
                if isinstance(t, S) and t.name not in CMP: return t
        if x < .60: return S('fd_domain', self.v() if r.random() < .6 else self.distinct(), self.k() - r.choice((0, 0, 0, 2)), self.k() + r.choice((0, 2, 5)))
        if x < .64: return S('fd_domain', self.v() if r.random() < .6 else self.distinct(), [self.k() for _ in range(r.randrange(1, 7))])
        if x < .65: return S('fd_domain_bool', self.v() if r.random() < .6 else self.distinct())
        if x < .71: return S('fd_all_different', self.distinct(2) if r.random() < .8 else self.vars())
        if x < .77: 
            return S('fd_element', self.v(), [self.k() for _ in range(r.randrange(1, 7))], self.v()) if r.random() < .5 else S('fd_element_var', self.v(), self.vars(1, 5), self.v())
        if x < .82: return S(r.choice(('fd_atmost', 'fd_atleast', 'fd_exactly')), r.randrange(0, self.n + 2), self.vars(), self.k())
        if x < .86:
            vs = self.distinct() if r.random() < .8 else self.vars(1, 3); rows = [[self.k() if r.random() < .3 or not isinstance(v, G) else r.choice(self.doms[v.n]) for v in vs] for _ in range(r.randrange(1, 9))]
            return S('fd_relation', rows, vs) if r.random() < .6 else S('fd_relationc', [list(c) for c in zip(*rows)], vs)
        if x < .91:
            l = [self.boolx(2) if r.random() < .5 else self.arith(True) for _ in range(r.randrange(1, 5))]
            return S('fd_cardinality', l, self.v() if r.random() < .6 else r.randrange(0, 4)) if r.random() < .4 else S('fd_cardinality', r.randrange(0, 3), l, r.randrange(0, 5)) if r.random() < .5 else S(r.choice(('fd_at_least_one', 'fd_at_most_one', 'fd_only_one')), l)
        if x < .93: return S(r.choice(('fd_prime', 'fd_not_prime')), self.v())
        if x < .95: return S('fd_reified_in', self.v(), self.k(), self.k() + r.choice((0, 1, 3)), self.bool())
        if x < .96: return S('fd_use_vector', self.v())
        if x < .98: return S('=', self.v(), self.v() if r.random() < .6 else self.k())
        vs = self.distinct(); return S('=', S('f', *vs), S('f', *[self.v() if r.random() < .5 else r.choice(self.doms[v.n]) for v in vs]))
    def big(self, t):
        """the largest sub-expression there can be"""
        if isinstance(t, list): return max([self.big(x) for x in t] or [0])
        if isinstance(t, A): return 0
        if isinstance(t, int): return abs(t)
        if isinstance(t, G): return self.doms[t.n][-1]
        b = [self.big(x) for x in t.args]
        if t.name in ('+', '-'): return sum(b)
        if t.name == '*': return max(b[0] * b[1], *b)
        if t.name == '**': return 10**6 if b[1] > 12 else max(b[0] ** b[1], *b)
        if t.name in CMP: return sum(b)
        return max(b or [0])
    def con(self):
        while True:
            t = self.one()
            if self.r.random() < .12: t = S(',', t, self.one())
            if self.big(t) <= self.vm: return t
    def opts(self):
        r = self.r; o = []
        if r.random() < .6: o.append(S('variable_method', A(r.choice(VMETH))))
        if r.random() < .6: o.append(S('value_method', A(r.choice(WMETH))))
        if r.random() < .2: o.append(S('reorder', A(r.choice(('true', 'false')))))
        r.shuffle(o); return o
CLASH = ('f', 'a', 1.5, -1)
def error(g, r):
    v = g.v(); x = r.random(); E = lambda *a: enc(S(*a))
    ty = lambda t, c: enc(S('type_error', A(t), c)); inst = enc(A('instantiation_error'))
    if x < .25: a = r.choice((A('a'), 1.5, S('f', 1), S('foo', v, 2))); return S(r.choice(list(CMP)), S('+', v, a), g.v()), [ty('fd_evaluable', S('/', A(a.name), len(a.args)) if isinstance(a, S) else S('/', a, 0) if isinstance(a, A) else a)]
    if x < .4: a = r.choice((A('a'), 2.5)); return S('#\\', S('#/\\', a, g.bool())), [ty('fd_bool_evaluable', S('/', a, 0) if isinstance(a, A) else a)]
    if x < .55: return S('fd_all_different', T([v], V(9))), [inst]
    if x < .7: a = r.choice((A('a'), 0.5)); return S('fd_domain', [a, v], 1, 3), [ty('fd_variable', a)]
    if x < .85: return S('fd_domain', v, V(9), 2), [inst]
    return S('fd_labeling', [v], [S('value_method', A('nosuch'))]), [enc(S('domain_error', A('fd_labeling_option'), S('value_method', A('nosuch'))))]
def gen(rng, i):
    r = rng; n = r.choice((1, 2, 2, 3, 3, 3, 4, 4, 5)); doms = []; left = r.choice((200, 800, 2500)); flat = r.random() < .5
    for j in range(n):
        most = max(2, int(left ** (1 / (n - j)))); s = r.randrange(2, max(3, min(most, 14) + 1)); 
        if r.random() < .05: s = 1
        lo = r.choice((0, 0, 0, 1, 1, 2, 5)) if flat else r.choice((0, 0, 1, 3, 30, 62, 63, 64, 100))
        if r.random() < .25 and s <= 2: d = [0, 1]
        elif r.random() < .7: d = list(range(lo, lo + s))
        else: d = sorted(r.sample(range(lo, lo + 2 * s + r.choice((0, 0, 70))), s))
        doms.append(d); left = max(2, left // len(d))
    r.shuffle(doms); vm = r.choice((127, 127, 255, 500, 1000, 3000)); vm = max(vm, max(d[-1] for d in doms))
    vm = (vm | 63)
    g = Gen(r, n, doms, vm); sols = [tuple(x) for x in itertools.product(*doms)]; stack = []; ops = []; ids = 0
    def good(c): return filt(sols, c)
    for _ in range(r.choice((4, 8, 12, 20, 30))):
        x = r.random(); e = enc
        if x < .5 or x < .6 and not stack:
            c = g.con(); s2 = good(c)
            for _ in range(2):
                if s2 or r.random() < .3: break
                c = g.con(); s2 = good(c)
            y = r.random()
            if y < .84: ops.append({'k': 'post', 'c': e(c)}); sols = s2 or sols
            elif y < .90: ops.append({'k': 'not', 'c': e(c)})
            elif y < .94: ops.append({'k': 'thrown', 'c': e(c)})
            elif y < .97:
                t = S('=', g.v(), r.choice((A('a'), 1.5, -1, S('f', g.v())))); ops.append({'k': 'post', 'c': e(t)})
            else: t, es = error(g, r); ops.append({'k': 'bad', 'c': e(t), 'e': es})
        elif x < .60: ops.append({'k': 'all', 'c': e(g.con() if r.random() < .5 else A('true')), 'o': e(g.opts())} if len(sols) < 300 else {'k': 'post', 'c': e(g.con())})
        elif x < .72 and len(stack) < 5:
            ids += 1; o = {'k': 'label', 'id': ids, 'vs': [v.n for v in (g.distinct() if r.random() < .5 else [G(j) for j in range(n)])], 'o': e(g.opts())}
            if r.random() < .3: r.shuffle(o['vs'])
            ops.append(o); stack.append(sols); p = r.choice(sols) if sols else None
            if p and r.random() < .5: sols = [y for y in sols if all(y[v] == p[v] for v in o['vs'])]
        elif x < .80 and len(stack) < 5:
            ids += 1; cs = [g.con() for _ in range(r.choice((2, 2, 3, 4)))]; ops.append({'k': 'alt', 'id': ids, 'cs': [e(c) for c in cs]}); stack.append(sols); sols = next((z for z in (good(c) for c in cs) if z), sols)
        elif x < .93 and stack: ops.append({'k': 'retry'})
        elif x < .955 and stack: ops.append({'k': 'leave'}); sols = stack.pop()
        elif x < .975 and stack: ops.append({'k': 'commit'}); stack.pop()
        else: ops.append({'k': 'opt', 'f': r.choice(('fd_minimize', 'fd_maximize')), 'v': r.randrange(n), 'o': e(g.opts())} if r.random() < .5 else {'k': 'post', 'c': e(g.con())})
    ops.append({'k': 'all', 'c': e(A('true')), 'o': e(g.opts())})
    case = {'seed': r.randrange(1 << 30), 'doms': doms, 'vm': vm, 'ops': ops, 'faults': []}
    return case
def nontrivial(case, r):
    return any(o['k'] in ('retry', 'leave', 'commit') for o in case['ops']) and any(o['k'] in ('label', 'alt') for o in case['ops'])
